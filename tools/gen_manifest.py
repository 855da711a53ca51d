#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json
CLAIMED = {
  "C33": "released builds, real upgrades and forged legacy records of the real wasm, every view and every withdrawal compared across the step",
 "C34": "reference model of every administrative list and setting, compared in full after each call; echo transfers replayed in copies with the sender admitted",
 "C35": "every view family cross-checked (pages of random size, batches, alternative views) in states reached by random histories",
 "C36": "after random hostile histories every account leaves completely, step by step, with exact payouts checked",
 "C37": "reserve floor monitor after every receipt under calls aimed at draining a reserve",
 "C38": "the same operations in a quiet copy of the world and one filled by strangers who also act between the receipts: same outcomes, records and storage work",
 "C40": "per-farm and per-token reward ledgers after every receipt of the real farming wasm, against the token ledgers",
 "C41": "exact schedule and pro-rata reference model of every farm, claims in copies by every method",
 "C42": "stake sums and custody after every receipt, exact effect of every deposit, withdrawal and settlement",
 "C43": "life-cycle trace monitor of every farm over histories of creation, deposits, time and removal",
 "C44": "claim and withdrawal effects against the amounts shown just before, payout tracker over the receipt log",
 "C45": "NEAR ledger of the farming contract per receipt, exact oracle for every storage call",
 "C46": "privilege table tried by every kind of caller and deposit, paused-state monitor with an unpaused copy",
 "C47": "every farming view family cross-checked after random histories; shown unclaimed rewards compared with claims executed in copies at the same instant",
 "C19": "NEAR balance vs storage staked vs storage records after every receipt, exact oracle for every storage call",
 "C25": "reference model of accepted values fed with every provider answer the chain saw, boundary-time schedules, blocked calls rerun with fresh values in a copy",
 "C28": "exact time-weighted reference accumulator compared with every reported average, tracked/untracked differential runs",
 "C20": "whole-state and outgoing-receipt monitor of every receipt executed while paused, with an unpaused copy proving the call was live",
 "C21": "three copies of the world (never frozen, frozen, unfrozen again) run the same operation and are compared",
 "C22": "privilege table tried by every kind of caller and deposit, forged callbacks with forged results, settings monitor over histories",
 "C23": "token acceptance and unregistration monitor over every receipt",
 "C27": "reference ramp model vs every reading of the amplification, acceptance oracle for every request",
 "C30": "whole-state effect of every treasury operation and donation, payout tracker",
 "C31": "registry identity monitor after every receipt, validity and payment oracle for every creation attempt",
 "C14": "payout tracker over the receipt log: every started transfer settles exactly once, whole-state effect compared",
 "C15": "differential runs of transfer-started swaps in a copy, payout tracker, refund check at the token ledger",
 "C16": "whole-state effect of every share or token transfer and of every resolve, with scripted hostile receivers",
 "C17": "online pledge invariant after every receipt plus exact pledge transitions, with reordered and failing settlements",
 "C18": "whole-state effect and pro-rata payout of every liquidation attempt; refusal oracle",
 "C32": "differential runs of hot zaps in a copy, token conservation, refund check at the token ledger",
 "C01": "custody equation after every receipt against token-ledger ground truth, in-flight tracker over the event log",
 "C02": "online invariant monitor: supply = sum of balances, allowed direction of supply changes per method",
 "C03": "online isolation monitor: every balance change vs the accounts the call entitles",
 "C04": "executed swaps vs exact integer constant-product oracle",
 "C06": "executed swaps bracketed by an exact 1024-bit StableSwap solver; invariant and round-trip monitors",
 "C07": "executed swaps bracketed by an exact rate-scaled StableSwap solver",
 "C05": "pro-rata and per-share-reserve monitors on executed simple-pool operations, round-trip profit search",
 "C09": "exact invariant value per share around every liquidity operation, imbalance-fee oracle, round-trip profit search",
 "C10": "differential runs: limits at, beyond and around the outcome learnt in a copy of the world",
 "C11": "differential runs: batch vs the same actions one by one in a copy; all-or-nothing monitor",
 "C12": "differential runs: every quote vs the operation executed in a copy of the world",
 "C13": "exact integer curve oracle on executed output swaps; chain decomposition in a copy",
 "C24": "fee-share mint bounds and recipients on executed swaps and liquidity changes",
 "C26": "stored-price TVL oracle against every attempted addition around the limit",
 "C29": "volume counters after every receipt vs the hops executed in it",
 "C08": "executed swaps bracketed by an exact price-scaled StableSwap solver",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":f"bash /verif/check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash /verif/check.sh {i}",
          "technique":"runtime monitoring of the real wasm: "+CLAIMED[i],"level":"exploration",
          "level_note":"seeded random histories, schedules and faults on the contracts' release wasm inside an in-memory NEAR host; only the executions counted in the evidence were observed"})
    else: na.append({"property":i,"reason":"not yet claimed: its monitor is still being built"})
json.dump({"version":1,"setup_cmd":"bash /verif/build.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
