#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or ["contract views and the token contracts' ledgers after every executed receipt"], hook_needed=None)))
EX = "ref-exchange/src/"
FA = "ref-farming/src/"

p("C01", "Token custody covers every liability of the exchange",
  "For every fungible token, the amount the token contract holds for the exchange is at every moment at least the sum of all users' internal deposits, all pool reserves and all lostfound entries, and it equals that sum plus outgoing transfers still in flight once rounding dust of over-precise tokens is set aside. Swaps, liquidity operations, donations, liquidations and fee collection move tokens between these internal buckets without creating or destroying any.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of deposits, swaps, liquidity, withdrawals, shadow, liquidation and owner operations by any number of accounts, with any token-side success or failure and any receipt order",
  "Tests check a few balances after fixed short scripts with well-behaved tokens; conservation over arbitrary histories, failures and receipt orders is never summed up.",
  [EX + "lib.rs", EX + "account_deposit.rs", EX + "token_receiver.rs", EX + "action.rs", EX + "simple_pool.rs", EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs", EX + "account_lostfound.rs"],
  [("internal deposit ledger", EX + "account_deposit.rs Account::deposit/withdraw"), ("pool reserve updates", EX + "simple_pool.rs, stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs"), ("withdraw callback", EX + "account_deposit.rs exchange_callback_post_withdraw")],
  [("deposits", "per-account token balances", EX + "account_deposit.rs"), ("amounts", "pool reserves", EX + "simple_pool.rs"), ("lostfound", "unclaimable failed withdrawals", EX + "account_lostfound.rs")])

p("C02", "Pool share supply equals the sum of all share balances",
  "In every pool the reported total share supply equals the sum of the share balances of all accounts, including the exchange itself and fee recipients, after every operation. Supply only rises when liquidity is added or a swap or imbalanced operation pays protocol fees in shares, and only falls when shares are burnt for tokens; transfers, donations, locks and registrations leave it unchanged.",
  ["histories"], "all histories of liquidity, swap, fee, transfer, donation, shadow and liquidation operations on every pool kind",
  "Unit tests compare supply with a couple of hand-picked accounts for single operations; they cannot cover every operation mix or fee recipient.",
  [EX + "simple_pool.rs", EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs", EX + "multi_fungible_token.rs", EX + "donation.rs"],
  [("mint_shares / burn", "each pool kind"), ("share_transfer", EX + "multi_fungible_token.rs, pool.rs")])

p("C03", "An account's tokens and shares change only by its own or entitled actions",
  "A call signed by one account never changes another account's internal token deposits, lostfound entries or pool shares, except credits explicitly addressed to a recipient, fee shares paid to the exchange and the registered referrer, donations to the owner or exchange, and liquidation by the configured lending contract. In particular nobody else's balance ever decreases, and a failed call changes nobody's balance.",
  ["histories", "inputs"], "every user-callable method with arbitrary arguments by arbitrary accounts, interleaved",
  "Tests assert the caller's balances, rarely those of uninvolved accounts, and only for hand-chosen arguments.",
  [EX + "lib.rs", EX + "action.rs", EX + "multi_fungible_token.rs", EX + "account_deposit.rs", EX + "shadow_actions.rs", EX + "donation.rs"],
  [("predecessor-based account lookup", EX + "lib.rs, account_deposit.rs"), ("share_transfer checks", EX + "multi_fungible_token.rs")])

p("C04", "Constant-product swaps never pay more than the fee-adjusted curve",
  "A swap in a two-token simple pool pays out exactly the integer-rounded-down amount given by the constant-product formula on the input after the pool's total fee, adds the full input to one reserve and removes exactly the output from the other. The product of the reserves never decreases and no swap empties a reserve.",
  ["inputs", "histories"], "all reserves, fees and amounts up to 128 bits, reached by arbitrary histories",
  "Tests sample a few amounts; rounding and overflow behaviour at extreme ratios and sizes is not enumerated.",
  [EX + "simple_pool.rs", EX + "pool.rs"],
  [("internal_get_return", EX + "simple_pool.rs"), ("invariant assertion", EX + "simple_pool.rs swap")])

p("C05", "Simple-pool liquidity is minted and burnt pro rata, rounded for the pool",
  "Adding liquidity to a simple pool mints no more shares than the contributed fraction of every reserve justifies and takes no more than the offered amounts; removing liquidity pays at most the pro-rata part of each reserve for the shares burnt, and burns exactly the shares named. Consequently reserves per outstanding share never fall through liquidity operations and no add/remove/swap round trip by one account yields a profit.",
  ["inputs", "histories"], "all reserves, supplies and amounts, and all sequences of operations by one actor",
  "Tests use round numbers with tiny histories, so a rounding direction error or a per-round-trip gain of a unit goes unseen.",
  [EX + "simple_pool.rs", EX + "pool.rs"],
  [("add_liquidity", EX + "simple_pool.rs"), ("remove_liquidity", EX + "simple_pool.rs")])

p("C06", "Stable pools price swaps on the StableSwap curve, rounded for the pool",
  "A swap in a stable pool yields the amount implied by the StableSwap invariant at the current amplification, less the pool fee, to within the integer solver's rounding (a few smallest units of the pool's common precision, scaled by how steep the curve is at that state), and never more beyond that rounding. The invariant of the pool's reserves does not decrease through swaps beyond it, whatever the token decimals, number of tokens and imbalance.",
  ["inputs", "histories", "configurations"], "all token counts, decimals, amplifications, fees, reserves and amounts",
  "Tests compare a few amounts with recorded constants for one configuration; iterative integer solvers and decimal scaling need many configurations.",
  [EX + "stable_swap/mod.rs", EX + "stable_swap/math.rs"],
  [("compute_d / compute_y / swap_to", EX + "stable_swap/math.rs"), ("amount_to_c_amount", EX + "stable_swap/mod.rs")])

p("C07", "Rated pools price swaps on the rate-scaled StableSwap curve",
  "A swap in a rated pool yields the amount implied by the StableSwap invariant over reserves multiplied by the current token rates, less the pool fee, to within the integer solver's rounding (a few smallest units of the pool's common precision, scaled by the state's sensitivity), and never more beyond it. For fixed rates the rate-scaled invariant does not decrease through swaps beyond that rounding.",
  ["inputs", "histories", "configurations"], "all rates, token counts, decimals, amplifications, fees, reserves and amounts",
  "Tests replay a few fixed rate values; the product of rates, decimals and imbalance is not covered.",
  [EX + "rated_swap/mod.rs", EX + "rated_swap/math.rs", EX + "rated_swap/rate.rs"],
  [("compute_d_with_rates / compute_y", EX + "rated_swap/math.rs"), ("rates scaling", EX + "rated_swap/mod.rs")])

p("C08", "Degen pools price swaps on the oracle-price-scaled StableSwap curve",
  "A swap in a degen pool yields the amount implied by the StableSwap invariant over reserves multiplied by the last accepted oracle prices, less the pool fee, to within the integer solver's rounding (a few smallest units of the pool's common precision, scaled by the state's sensitivity), and never more beyond it. For fixed prices the price-scaled invariant does not decrease through swaps beyond that rounding.",
  ["inputs", "histories", "configurations"], "all prices, token counts, decimals, amplifications, fees, reserves and amounts",
  "Tests replay a handful of price pairs; scaling across price magnitudes and decimals is not covered.",
  [EX + "degen_swap/mod.rs", EX + "degen_swap/math.rs", EX + "degen_swap/degen.rs"],
  [("compute_d_with_degens / compute_y", EX + "degen_swap/math.rs"), ("price scaling", EX + "degen_swap/mod.rs")])

p("C09", "Liquidity changes in stable-type pools never dilute other providers",
  "In stable, rated and degen pools, adding liquidity, removing it pro rata or removing chosen token amounts never lowers the invariant value backing each remaining share (at fixed amplification and prices) beyond integer rounding, pays at most the pro-rata reserves on proportional removal, and charges imbalanced changes the pool fee. No sequence of adds, removes and swaps by one account returns more of every token than it put in.",
  ["inputs", "histories", "configurations"], "all pool configurations, reserves, amounts and single-actor sequences",
  "Tests check recorded constants for single adds and removes; dilution through rounding, imbalance or fee handling needs many states.",
  [EX + "stable_swap/mod.rs", EX + "stable_swap/math.rs", EX + "rated_swap/mod.rs", EX + "rated_swap/math.rs", EX + "degen_swap/mod.rs", EX + "degen_swap/math.rs"],
  [("compute_lp_amount_for_deposit / for_withdraw", "*/math.rs"), ("remove_liquidity_by_shares", "*/mod.rs"), ("MIN_RESERVE", "*/mod.rs")])

p("C10", "User-specified slippage limits are always honoured",
  "Whenever an operation with a limit succeeds, the caller received at least every stated minimum (swap output, minimum shares, minimum amounts on removal) and paid at most every stated maximum (maximum swap input, maximum burnt shares, offered liquidity amounts); otherwise the operation fails as a whole. This holds for every pool kind, for chained actions, and for swaps and liquidity started by token transfers.",
  ["inputs", "histories"], "all operations with limits placed just inside, at and just outside the achievable result",
  "Tests exercise one or two failing limits per method with large margins, not the boundary in each pool kind and entry point.",
  [EX + "lib.rs", EX + "action.rs", EX + "pool.rs", EX + "simple_pool.rs", EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs", EX + "token_receiver.rs"],
  [("min/max assertions", "each pool kind's swap/add/remove")])

p("C11", "Action batches are all-or-nothing and chain exact amounts",
  "A batch of swap actions either executes completely or leaves all deposits, pools and shares untouched, and an action without an explicit input amount uses exactly the previous action's output. The batch consumes exactly the first input plus explicit inputs and credits exactly the outputs that are not consumed by later actions; a batch started by a token transfer that fails returns the whole transferred amount to the sender.",
  ["inputs", "histories", "fault_sequences"], "all action lists over all pool kinds, with failures injected at any position",
  "Tests run short batches that succeed, or fail at one place; they do not vary failure positions and entry points.",
  [EX + "lib.rs", EX + "action.rs", EX + "token_receiver.rs"],
  [("internal_execute_actions", EX + "action.rs"), ("VirtualAccount commit", EX + "lib.rs execute_actions_in_va, token_receiver.rs")])

p("C12", "Quotes and predictions equal what execution does",
  "Every quote or prediction view (swap return, return by output, batch swap prediction, liquidity add/remove predictions, hot-zap prediction, rate- or price-parametrised quotes) returns exactly what the corresponding operation executed immediately afterwards in the same block yields, and calling views changes nothing. When the operation would fail for pricing reasons the quote fails or cannot be exceeded.",
  ["inputs", "histories", "configurations"], "all pool states, amounts and view methods",
  "Tests compare a quote with an execution for a few amounts in fresh pools.",
  [EX + "views.rs", EX + "pool.rs", EX + "action.rs", EX + "simple_pool.rs", EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs"],
  [("get_return*, predict_*", EX + "views.rs"), ("is_view code paths", EX + "pool.rs and pool kinds")])

p("C13", "Swap-by-output delivers the exact amount for a sufficient, near-minimal input",
  "A swap by output credits exactly the requested output amount and charges an input that, swapped forward through the same pool state, is enough for that output, while charging at most a unit or two more than the least such input. Chains of output swaps charge each hop exactly what the next hop needs, so no intermediate token is gained or lost beyond the explicit requests.",
  ["inputs", "histories"], "all reserves, fees and requested outputs, and chains over several pools",
  "Tests check one exact value; minimality and sufficiency need many states.",
  [EX + "simple_pool.rs", EX + "action.rs", EX + "pool.rs"],
  [("internal_get_return_by_output", EX + "simple_pool.rs"), ("internal_execute_swap_by_output", EX + "action.rs")])

p("C14", "Each withdrawal is paid exactly once or credited back exactly once",
  "When a user withdraws, the amount leaves the internal balance immediately and then either the token contract pays it out exactly once, or, if the transfer fails, exactly that amount reappears once: in the account if it can hold it, else in the user's lostfound, else with the owner. Lostfound balances are paid to their own user only, once, and a failed lostfound claim is not lost; this holds whatever other calls run between the transfer and its callback, including unregistration.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of withdrawals, claims, storage and registration changes with token failures between request and callback",
  "Simulation tests cover one failing transfer in a fixed order; interleaved unregistration, storage shortage and repeated claims are not explored.",
  [EX + "account_deposit.rs", EX + "account_lostfound.rs", EX + "owner.rs"],
  [("internal_send_tokens + exchange_callback_post_withdraw", EX + "account_deposit.rs"), ("claim_lostfound", EX + "account_lostfound.rs")])

p("C15", "Transfer-initiated swaps deliver the output once and refund the rest",
  "When a token is transferred to the exchange with a swap message, everything the swap leaves over - its output, and any part of the input it did not use - is sent out once to the requested recipient or sender (or credited to the sender's account or lostfound if that delivery fails), and the exchange keeps exactly the rest. A rejected message or insufficient output returns the full transferred amount, and options such as a separate recipient, wNEAR unwrapping and client echo never change the amount delivered nor who pays.",
  ["inputs", "schedules", "fault_sequences"], "all messages, amounts, pools, recipients and token failures",
  "Tests use a few well-formed messages with tokens that succeed.",
  [EX + "token_receiver.rs", EX + "account_deposit.rs", EX + "client_echo_limit.rs"],
  [("ft_on_transfer", EX + "token_receiver.rs"), ("internal_send_tokens / near unwrap", EX + "account_deposit.rs")])

p("C16", "LP-share transfers conserve shares, even with receiver callbacks",
  "Transferring pool shares moves exactly the stated amount (or all that is not pledged) from the caller to a registered receiver and fails when the caller's balance is insufficient. For transfer-call, after the receiver's answer the receiver keeps between zero and the sent amount, the sender gets back at most what the receiver reported unused and never more than was sent or still held by the receiver, and nothing is created or lost whatever the receiver returns, fails or does in between (a refund that can no longer be moved, because the receiver pledged or spent the shares or the sender gave up its share registration, stays with the receiver).",
  ["inputs", "schedules", "fault_sequences", "histories"], "all amounts, receiver replies, failures and share movements between transfer and resolution",
  "Tests cover one farm receiver and fixed replies; over-reporting, failing and spending receivers are not explored.",
  [EX + "multi_fungible_token.rs", EX + "pool.rs"],
  [("internal_mft_transfer", EX + "multi_fungible_token.rs"), ("mft_resolve_transfer", EX + "multi_fungible_token.rs")])

p("C17", "Locked (shadow) shares cannot leave an account",
  "For each account and pool, the shares recorded as pledged to farming and, separately, to lending never exceed the account's share balance, and pledged shares cannot be transferred, donated, burnt or otherwise moved by their owner while the pledge stands. A pledge grows only up to the available shares, shrinks only through a withdrawal confirmed by the farm or lending contract (or liquidation), and a failed cross-contract step restores it exactly.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of pledging, unpledging, transfers, donations, removals and liquidation, with farm/lending failures",
  "Tests pledge and remove in fixed order with cooperative mocks; not every share-moving entry point is tried against a pledge.",
  [EX + "shadow_actions.rs", EX + "account_deposit.rs", EX + "multi_fungible_token.rs", EX + "lib.rs", EX + "donation.rs"],
  [("free_shares / shadow records", EX + "account_deposit.rs"), ("shadow_action, callback_on_shadow", EX + "shadow_actions.rs")],
  [("shadow_records", "pledged shares per account and pool", EX + "account_deposit.rs")])

p("C18", "Liquidation moves exactly the named collateral, only for the lending contract",
  "Only the configured lending contract can liquidate; it burns exactly the named amount of the liquidated account's pledged shares, pays the pro-rata pool tokens, rounded down and at least the stated minimums, to the liquidator's registered account, and lowers that account's lending pledge by the same amount. If the farm-side adjustment is needed the farming pledge is reduced so that it still fits the remaining shares, and a liquidation of more than is pledged fails without effect.",
  ["inputs", "histories", "fault_sequences"], "all pledge mixes, share amounts, minimums and liquidator states, including unregistered liquidators",
  "Tests cover a few liquidations with one mock configuration.",
  [EX + "shadow_actions.rs", EX + "account_deposit.rs"],
  [("on_burrow_liquidation", EX + "shadow_actions.rs")])

p("C19", "Storage deposits are accounted exactly and never fund others",
  "Every NEAR amount attached for storage is either recorded as the account's storage balance, used for the storage the call created, or returned to the payer; available balance is what exceeds the cost of the account's recorded usage and only that can be withdrawn. The exchange's own NEAR balance always covers all recorded storage balances: no user operation makes the exchange itself pay for storage (a token entry of an account is charged at its fixed recorded size) or pays anyone more than was recorded or freed, except a new lostfound entry. No operation leaves a user's account with usage above its balance.",
  ["inputs", "histories"], "all deposits, withdrawals, registrations and operations that create or free storage by any accounts",
  "Tests check single deposits with fixed values; accounting drift over histories is not measured.",
  [EX + "storage_impl.rs", EX + "account_deposit.rs", EX + "lib.rs", EX + "multi_fungible_token.rs"],
  [("storage_deposit/withdraw/unregister", EX + "storage_impl.rs"), ("internal_check_storage", EX + "lib.rs"), ("assert_storage_usage", EX + "account_deposit.rs")])

p("C20", "A paused exchange moves no user funds",
  "While the exchange is paused, no user call and no incoming token transfer changes any deposit, share, pool or pledge; transfers in are refunded, and only callbacks settling calls started before the pause may credit funds back (liquidation by the lending contract and owner or guardian administration are not user calls). Guardians and owner may pause, only the owner can resume.",
  ["histories", "schedules", "inputs"], "every public method, arbitrary arguments, paused at any moment including between a call and its callback",
  "Tests try a fixed list of methods in a fresh paused contract.",
  [EX + "lib.rs", EX + "owner.rs", EX + "token_receiver.rs", EX + "account_deposit.rs", EX + "multi_fungible_token.rs", EX + "shadow_actions.rs", EX + "storage_impl.rs"],
  [("assert_contract_running", EX + "lib.rs"), ("change_state", EX + "owner.rs")])

p("C21", "Frozen tokens cannot be traded, pooled, deposited or withdrawn",
  "While a token is on the frozen list, no swap or hot-zap with an action that names it as input or output succeeds, no liquidity is added to or removed from a pool that holds it, and users can neither deposit, withdraw nor claim it, through any user entry point, directly or as an intermediate hop. Operations on other tokens keep working, and unfreezing restores the previous behaviour with all balances intact.",
  ["inputs", "histories"], "all operations and action chains with the frozen token at any position, any pool kind",
  "Tests try one frozen token in a few methods.",
  [EX + "lib.rs", EX + "owner.rs", EX + "token_receiver.rs", EX + "account_deposit.rs"],
  [("assert_no_frozen_tokens", EX + "lib.rs")])

p("C22", "Privileged exchange methods reject everyone else",
  "Every owner-only method fails for any other caller including guardians, every owner-or-guardian method fails for ordinary accounts, callbacks accept only the contract itself, and methods that require one yoctoNEAR fail without it; failed calls change no state. Ownership and guardian sets change only through the owner's calls.",
  ["inputs", "histories"], "every public method, any caller, any arguments, at any point of a history",
  "Tests check a few methods for one wrong caller.",
  [EX + "owner.rs", EX + "lib.rs", EX + "client_echo_limit.rs", EX + "pool_limit_info.rs", EX + "unit_lpt_cumulative_infos.rs"],
  [("assert_owner / is_owner_or_guardians / assert_one_yocto / #[private]", EX + "owner.rs")])

p("C23", "Only allowed tokens are accepted, and cleanup never destroys value",
  "A token deposit is accepted only if the token is globally whitelisted or registered by the receiving account, otherwise it is refunded in full. Unregistering a token or pool share with a non-zero balance, or an account that still holds tokens or pledged shares, fails, so no balance disappears through unregistration.",
  ["inputs", "histories"], "all registration, whitelist and unregistration calls interleaved with balance changes",
  "Tests check one rejected token and one rejected unregistration.",
  [EX + "account_deposit.rs", EX + "storage_impl.rs", EX + "multi_fungible_token.rs", EX + "token_receiver.rs", EX + "lib.rs"],
  [("internal_deposit whitelist check", EX + "account_deposit.rs"), ("unregister checks", EX + "account_deposit.rs, storage_impl.rs, simple_pool.rs")])

p("C24", "Protocol and referral fees stay within the configured share of fees",
  "On every swap or imbalanced liquidity change the protocol's and referrer's new shares together are worth no more than the configured fraction of the fee charged, the referrer gets at most its configured part of that and only if it is a registered share holder, and the rest goes to the exchange. Fee settings outside their legal bounds are rejected, and with zero admin fee no fee shares are minted.",
  ["inputs", "configurations", "histories"], "all fee settings, referral settings, pool kinds, states and amounts",
  "Tests compare a few fee results with recorded constants.",
  [EX + "admin_fee.rs", EX + "simple_pool.rs", EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs", EX + "owner.rs"],
  [("AdminFees, calc_referral_share", EX + "admin_fee.rs"), ("fee share minting", "pool kinds")])

p("C25", "Stale or unset rates and prices block trading in rated and degen pools",
  "A swap or an imbalanced removal in a rated or degen pool never succeeds unless every rated or priced token of the pool had its rate or price accepted from its provider within the validity period (plain tokens in rated pools count as rate one, always valid). Rates and prices change only through provider answers and are stored exactly as the answer states; malformed, stale, failed or non-positive Pyth answers leave the stored value unchanged. Anyone may trigger an update but nobody can choose its value; a trade asks for fresh prices of every token of every degen pool it goes through unless it opts out.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all provider answers, delays, failures and times around expiry",
  "Tests set a rate once and wait; the expiry boundary, delayed and malformed answers are not explored.",
  [EX + "rated_swap/rate.rs", EX + "rated_swap/mod.rs", EX + "rated_swap/stnear_rate.rs", EX + "rated_swap/linear_rate.rs", EX + "rated_swap/nearx_rate.rs", EX + "rated_swap/sfrax_rate.rs", EX + "degen_swap/degen.rs", EX + "degen_swap/price_oracle.rs", EX + "degen_swap/pyth_oracle.rs", EX + "oracle.rs", EX + "lib.rs"],
  [("are_actual / is_price_valid", EX + "rated_swap/rate.rs, degen_swap/degen.rs"), ("update callbacks", EX + "lib.rs, degen_swap/*_oracle.rs")])

p("C26", "Degen pool value limits cap liquidity additions",
  "If a degen pool has a value limit, no liquidity addition through any entry point succeeds when the pool's total value at stored prices afterwards exceeds the limit, while additions that stay within it are not blocked by it. The reported pool value equals reserves times stored prices, and limits are changed only by owner or guardians.",
  ["inputs", "histories"], "all limits, prices, reserves and amounts around the boundary, via direct and hot-zap additions",
  "Tests check one limit with one amount.",
  [EX + "pool_limit_info.rs", EX + "degen_swap/mod.rs", EX + "lib.rs", EX + "token_receiver.rs", EX + "pool.rs"],
  [("assert_tvl_not_exceed_limit", EX + "pool.rs")])

p("C27", "Amplification changes gradually and only within the ramp rules",
  "The amplification used by a stable-type pool always lies between the ramp's start and target values, moves monotonically and linearly in time between ramp start and stop, and equals the target afterwards; stopping a ramp freezes the current value. A ramp is accepted only from owner or guardian, with the minimum duration, the value bounds and the maximum change factor respected, and only at least a day after the pool's previous ramp began or was stopped.",
  ["inputs", "histories", "schedules"], "all ramp parameters and query/trade times, repeated and stopped ramps",
  "Tests check the midpoint of one ramp.",
  [EX + "owner.rs", EX + "stable_swap/mod.rs", EX + "stable_swap/math.rs", EX + "rated_swap/math.rs", EX + "degen_swap/math.rs"],
  [("compute_amp_factor", "*/math.rs"), ("ramp_amplification / stop_ramp_amplification", "*/mod.rs")])

p("C28", "Share-price TWAP stays within the observed per-share amounts",
  "For tracked pools, the reported average per-share token amounts are the time-weighted average of the per-share amounts that really held during the averaged window (to the second, whatever changed the pool), so they lie between the smallest and largest of them and a value that held for zero time has no weight. Records are time-ordered, limited in number and spaced by at least the configured interval, and tracking a pool never makes an operation fail that would succeed untracked.",
  ["histories", "schedules", "inputs"], "all sequences of trades, liquidity changes and time steps",
  "Tests follow one scripted price path.",
  [EX + "unit_lpt_cumulative_infos.rs", EX + "lib.rs", EX + "action.rs"],
  [("internal_update_unit_share_cumulative_info", EX + "unit_lpt_cumulative_infos.rs")])

p("C29", "Pool swap-volume counters record every swap exactly once",
  "Each executed swap adds exactly its input amount and its output amount to the pool's volume counters for that direction and nothing else changes them; they never decrease. Failed swaps, quotes, liquidity operations and other pools' trades leave them unchanged.",
  ["histories", "inputs"], "all swap entry points, chains and pool kinds",
  "Tests read a volume after one or two swaps.",
  [EX + "swap_volume.rs", EX + "simple_pool.rs", EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs", EX + "action.rs"],
  [("volume update in swap", "pool kinds"), ("get_pool_volumes", EX + "views.rs")])

p("C30", "Treasury operations only touch protocol-owned funds",
  "Collecting fee liquidity burns only the exchange's own shares and credits the owner the pro-rata tokens; withdrawing owner tokens pays only from the owner's internal balance; retrieving unmanaged tokens and donating pay exactly the stated amount to the owner (or fee shares to the exchange) once. Users' deposits, shares and pool entitlements are unaffected by these operations and a failed payout is not lost.",
  ["inputs", "histories", "fault_sequences"], "all amounts and orders of treasury operations with token failures",
  "Tests call each once with a small amount.",
  [EX + "owner.rs", EX + "donation.rs", EX + "account_deposit.rs"],
  [("remove_exchange_fee_liquidity, withdraw_owner_token, retrieve_unmanaged_token", EX + "owner.rs"), ("donation_share, donation_token", EX + "donation.rs")])

p("C31", "The pool registry is append-only and creation is validated",
  "Pools get consecutive identifiers, keep their kind and token list forever, and are never removed; creating one requires distinct tokens (exactly two in a simple pool), legal fees, amplification and decimals, owner or guardian rights for stable-type pools, and payment for the storage used with the excess refunded. A rejected creation changes nothing and refunds the deposit.",
  ["inputs", "histories"], "all creation calls with legal and illegal parameters, interleaved with trading",
  "Tests create a few legal pools and check one or two rejections.",
  [EX + "lib.rs", EX + "pool.rs", EX + "simple_pool.rs", EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs"],
  [("add_simple_pool, add_stable_swap_pool, add_rated_swap_pool, add_degen_swap_pool", EX + "lib.rs"), ("internal_add_pool", EX + "lib.rs")])

p("C32", "Hot-zap swaps and adds liquidity atomically without losing leftovers",
  "A hot-zap either performs all its swaps and liquidity additions, giving the sender all resulting shares and crediting every leftover token amount to the sender's account, or has no effect and refunds the transferred amount. Tokens in equal tokens consumed plus leftovers plus amounts added, and the sender's existing deposits are never spent.",
  ["inputs", "histories", "fault_sequences"], "all swap paths, liquidity lists, pool kinds and failure positions",
  "Tests run a few successful zaps.",
  [EX + "token_receiver.rs", EX + "action.rs", EX + "lib.rs"],
  [("HotZap branch of ft_on_transfer", EX + "token_receiver.rs"), ("TokenCache", EX + "utils.rs")])

p("C33", "Upgrades and legacy records preserve every balance",
  "Only the owner can upgrade a contract and only the contract itself (or its key) can run the migration. Upgrading or migrating a populated exchange (from any release since 1.9.1, and from the root records of 1.6.2 to 1.8.0) or farm (from the released build, and from 1.0.4 records) leaves every deposit, share, pledge, pool, lost-and-found, farm, stake and reward view unchanged and everything still withdrawable, can be repeated, and an upgrade that cannot be completed leaves the old code and state in place. Accounts stored in older supported record formats are read with exactly the balances they held and behave the same after being rewritten; only the NEAR storage charged for the record may grow.",
  ["histories", "configurations"], "all reachable states before migration, and all supported legacy account and pool record versions",
  "Tests migrate an almost empty state, or are excluded for lack of an old binary.",
  [EX + "legacy.rs", EX + "owner.rs", EX + "account_deposit.rs", EX + "stable_swap/mod.rs", FA + "legacy.rs", FA + "owner.rs"],
  [("migrate", EX + "owner.rs, " + FA + "owner.rs"), ("VAccount / Pool versions", EX + "account_deposit.rs, legacy.rs")])

p("C34", "Administrative lists act exactly as set; client echo needs admission",
  "Each administrative call by an entitled caller either changes its list, fee, setting or running state exactly as requested or fails and changes nothing (adding a listed or removing an unlisted entry where the method refuses that included), takes effect from the next call, and never touches another list, balances or pools. A swap by token transfer whose output is to be sent back with a message succeeds only if the sender is on the secure list, or the token and the sender are both on the echo lists, exactly or by a pattern \"*suffix\"; then the whole output of the swap goes to that sender with that message.",
  ["inputs", "histories"], "all list and setting methods in any order by any caller, every combination of list contents, tokens and senders",
  "Tests add and remove single entries and try one admitted and one refused transfer.",
  [EX + "client_echo_limit.rs", EX + "owner.rs", EX + "token_receiver.rs", EX + "views.rs"],
  [("assert_client_echo_valid / matches_wildcard_pattern", EX + "client_echo_limit.rs"), ("extend_* / remove_* / modify_*", EX + "owner.rs"), ("ft_on_transfer", EX + "token_receiver.rs")])

p("C35", "Exchange views, pages and batches are complete and agree with each other",
  "In every reachable state the same fact shown by different views is the same: a paged listing read in pages of any size gives every entry exactly once, batch views equal the single-item views item by item, pool views, totals, shares, deposits, storage, volumes, referrals, limits, rates and price listings agree with the specific views, per-share values agree with reserves over shares, and items that do not exist are shown as absent or refused, never as somebody else's. (Listings that need the price of every degen token fail while a registered degen token has never been priced.)",
  ["inputs", "histories"], "all histories of exchange operations, every view and every page size",
  "Tests compare a view with a literal in one state.",
  [EX + "views.rs", EX + "account_deposit.rs", EX + "account_lostfound.rs", EX + "shadow_actions.rs", EX + "unit_lpt_cumulative_infos.rs"],
  [("get_pools / get_pool_detail_infos / list_* / get_*_paged / *_by_ids / *_batch", EX + "views.rs"), ("get_pool_twap_info_view", EX + "unit_lpt_cumulative_infos.rs")])

p("C36", "Users can always leave with everything they own",
  "Whatever happened before, while the contract runs, no token is frozen and the tokens themselves work, a user can take back everything: pledged shares are released when the farming or lending contract releases them, every free share can be burnt for its pro-rata part (in stable-type pools as far as the minimum reserve remains in the pool), every deposit can be withdrawn in full, lost-and-found balances can be claimed, and an account with nothing left can unregister and gets its whole storage balance back. None of these steps needs anybody else's permission.",
  ["histories"], "all histories of operations and faults followed by any order of exits of all users",
  "Tests withdraw once from a fresh state.",
  [EX + "lib.rs", EX + "account_deposit.rs", EX + "storage_impl.rs", EX + "account_lostfound.rs", EX + "shadow_actions.rs", EX + "pool.rs"],
  [("remove_liquidity / withdraw", EX + "lib.rs"), ("storage_unregister", EX + "storage_impl.rs"), ("claim_lostfound", EX + "account_lostfound.rs")])

p("C37", "No pool with liquidity ever loses one of its tokens",
  "While a pool has shares outstanding every one of its reserves is positive. A swap, removal of liquidity (by shares or by token amounts, by a provider, for fees or in a liquidation) that takes tokens out of a stable, rated or degen pool leaves at least the minimum reserve (a thousandth of a token) of each token it takes out (a swap's rate conversion may round the recorded reserve of the token put in down by its last unit), or fails as a whole.",
  ["inputs", "histories"], "all sequences of swaps, additions and removals aimed at any reserve, all pool kinds, decimals, rates and prices",
  "Tests check the error for one removal and one swap.",
  [EX + "stable_swap/mod.rs", EX + "rated_swap/mod.rs", EX + "degen_swap/mod.rs", EX + "simple_pool.rs"],
  [("assert_min_reserve", EX + "stable_swap/mod.rs"), ("assert_min_reserve", EX + "rated_swap/mod.rs"), ("assert_min_reserve", EX + "degen_swap/mod.rs"), ("remove_liquidity", EX + "simple_pool.rs")])

p("C38", "Strangers change neither the outcome nor the cost of an operation",
  "What accounts do with their own balances, in pools of their own (exchange), or with their own stakes in seeds and farms of their own (farming) never changes another account's balances, shares, pledges, stakes or rewards, nor any other pool, seed or farm, and never changes what another account's operation does: it succeeds or fails, pays, records, logs and sends exactly the same (apart from the number a new pool gets), also when strangers act between the receipts of that operation. Its storage work (accesses and bytes) does not grow with the number of other accounts, pools, lost-and-found records, referrals, whitelisted or frozen tokens, farmers, seeds or farms, so nobody can price others out of their money by filling the contract.",
  ["inputs", "histories", "schedules"], "all states, any number of unrelated accounts, pools, tokens, seeds and farms created before or between the receipts of any operation",
  "Tests work on a handful of accounts and pools and never compare a busy contract with a quiet one.",
  [EX + "lib.rs", EX + "account_deposit.rs", EX + "account_lostfound.rs", EX + "swap_volume.rs", FA + "lib.rs", FA + "farm_seed.rs"],
  [("collections keyed by account, pool and token", EX + "account_deposit.rs"), ("per-pool records", EX + "swap_volume.rs"), ("per-account lost-and-found", EX + "account_lostfound.rs"), ("per-seed farm sets", FA + "farm_seed.rs")])

p("C40", "Farm reward tokens are conserved and always covered",
  "For every farm, rewards deposited equal rewards already claimed by farmers or set aside for the beneficiary plus distributed-but-unclaimed plus undistributed rewards, and claims never exceed what was distributed. Per reward token, the amount the farming contract holds covers all unclaimed, undistributed, beneficiary and credited-but-unwithdrawn rewards at all times.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of reward deposits, stakes, unstakes, claims, withdrawals, farm clean-ups and time, with token failures",
  "Tests script one or two farmers; sums over arbitrary histories and failing withdrawals are not checked.",
  [FA + "simple_farm.rs", FA + "actions_of_reward.rs", FA + "token_receiver.rs", FA + "farmer.rs"],
  [("distribute / claim_user_reward", FA + "simple_farm.rs"), ("withdraw_reward + callback", FA + "actions_of_reward.rs")])

p("C41", "Rewards accrue by schedule and pro rata to stake and time",
  "Each full session after the start releases exactly the session reward (the remainder at the end, nothing before the start), and each release is divided among the stakes present in proportion to stake, rounded down, or goes to the beneficiary if nobody is staked. A farmer's total reward does not depend on how often or by which method anyone claims, beyond rounding (less than a unit per claim, and less than one unit per 1e24 units of stake for each release), and a newly added stake earns nothing for the past.",
  ["histories", "schedules", "inputs"], "all stake/unstake/claim/time sequences, several farms per seed, farms with and without start time, reward top-ups",
  "Tests check fixed scripts; the fuzz test does not run here.",
  [FA + "simple_farm.rs", FA + "actions_of_seed.rs", FA + "actions_of_reward.rs", FA + "farmer.rs"],
  [("try_distribute (rps accumulator)", FA + "simple_farm.rs"), ("user_rps bookkeeping", FA + "farmer.rs")])

p("C42", "Staked seeds are held in custody and returned exactly once",
  "For every seed the recorded total equals the sum of farmers' stakes, and the staked tokens or shares held by the farming contract cover it. A farmer can always withdraw up to his own stake and never more; the stake is reduced when the withdrawal starts and restored exactly if the outgoing transfer fails, whatever happens in between; rejected deposits (unknown seed, below minimum, unregistered farmer) are refunded in full.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of stakes, withdrawals, claims and unregistration with transfer failures, for single- and multi-token seeds",
  "Tests cover one failing withdrawal in a fixed order.",
  [FA + "actions_of_seed.rs", FA + "token_receiver.rs", FA + "farm_seed.rs", FA + "farmer.rs"],
  [("internal_seed_deposit / internal_seed_withdraw", FA + "actions_of_seed.rs"), ("callback_post_withdraw_ft_seed / mft_seed", FA + "actions_of_seed.rs")])

p("C43", "Farms move only forward through their life cycle",
  "A farm goes from created to running on its first reward deposit, to ended when all rewards are distributed, and to cleared only through removal by the owner after it ended; a farm whose schedule already covers the whole reward ends with that deposit; it never goes back, ended or cleared farms accept no rewards, and only its own reward token is accepted. Farm identifiers are never reused and a farm with undistributed rewards cannot be removed.",
  ["histories", "inputs"], "all sequences of creation, deposits, time steps and removal attempts by any caller",
  "Tests remove one ended farm and one running farm.",
  [FA + "actions_of_farm.rs", FA + "simple_farm.rs", FA + "owner.rs", FA + "token_receiver.rs"],
  [("add_reward / can_be_removed / move_to_clear", FA + "simple_farm.rs"), ("internal_remove_farm_by_farm_id", FA + "actions_of_farm.rs")])

p("C44", "Each claimed reward is credited once and paid out once",
  "Claiming credits the farmer exactly the unclaimed amount shown just before and leaves it at zero; claiming again at once gives nothing. Withdrawing a reward debits the farmer's credited balance and either pays exactly that amount once or, if the transfer fails, restores it exactly once, whatever runs in between; nobody can claim or withdraw another farmer's reward.",
  ["histories", "schedules", "fault_sequences"], "all claim and withdrawal sequences with token failures and interleavings",
  "Tests withdraw once with success and once with failure in a fixed order.",
  [FA + "actions_of_reward.rs", FA + "farmer.rs", FA + "view.rs"],
  [("sub_reward / add_reward", FA + "farmer.rs"), ("callback_post_withdraw_reward", FA + "actions_of_reward.rs"), ("get_unclaimed_reward", FA + "view.rs")])

p("C45", "Farm storage deposits are accounted exactly",
  "NEAR attached for farm storage is recorded for the farmer, spent on created storage, or refunded; only the balance above the farmer's usage can be withdrawn, staking and claiming fail when they would leave the usage above the balance, and unregistering returns the whole balance and is refused exactly while non-zero stakes or credited rewards remain. (A farmer restored by the settlement of a failed transfer after unregistering has a balance of zero until the next deposit.) The farming contract's NEAR balance always covers all farmers' recorded balances.",
  ["inputs", "histories"], "all storage calls interleaved with farming operations",
  "Tests check single calls.",
  [FA + "storage_impl.rs", FA + "farmer.rs", FA + "actions_of_farm.rs"],
  [("storage_deposit / storage_withdraw / storage_unregister", FA + "storage_impl.rs")])

p("C46", "Farm administration is owner-only and pausing stops user operations",
  "Creating or cleaning farms, changing minimum deposits, pausing, resuming and changing the owner succeed only for the owner, callbacks and migration only for the contract itself, and withdrawals need exactly one yoctoNEAR. While paused no user call or incoming transfer changes stakes, rewards or storage balances, and incoming tokens are refunded.",
  ["inputs", "histories", "schedules"], "every public method, any caller and arguments, running or paused at any point",
  "Tests check a few methods for one wrong caller.",
  [FA + "owner.rs", FA + "actions_of_farm.rs", FA + "actions_of_seed.rs", FA + "actions_of_reward.rs", FA + "storage_impl.rs", FA + "token_receiver.rs"],
  [("assert_owner, RunningState checks, #[private]", FA + "owner.rs")])

p("C47", "Farming views are complete, agree with each other and predict claims",
  "In every reachable state paged listings of farms, removed farms, seeds and reward tokens give every entry exactly once for any page size and agree with the single-item views, the counters in the metadata equal the number of listed items and of registered farmers, a seed lists exactly its active farms, a farm is never shown both as active and as removed, storage views agree, the unclaimed reward shown for a farmer is exactly what claiming at that instant credits, and unknown farms, seeds and accounts are shown as absent or zero.",
  ["inputs", "histories"], "all histories of farming operations, every view, page size, account and time",
  "Tests compare single views with literals.",
  [FA + "view.rs", FA + "storage_impl.rs", FA + "farmer.rs", FA + "actions_of_farm.rs"],
  [("list_* / get_*", FA + "view.rs"), ("internal_remove_farm_by_farm_id", FA + "actions_of_farm.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
