S = "programs/hmmcl-sandbox/src/"
NOT_APPLICABLE = []
PROPS = []

def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors=a, technique=technique, level_note=note))

ORA = " Explores generated inputs only (counts in the evidence); trusts the harness's own big-integer arithmetic."

P("C01", "Signed decimal addition, subtraction and negation are exact",
  "Adding, subtracting or negating two fixed-point numbers of one scale gives exactly the mathematical result whenever it is representable, for every combination of signs and magnitudes. Operands of different scales, and results that do not fit, are refused rather than wrapped or silently reinterpreted.",
  ["inputs"], "every pair of signed 128-bit fixed-point numbers and every pair of scales",
  "The unit tests add a few hand-picked values; sign handling is branch-per-sign-combination and each branch depends on which magnitude is larger.",
  ["decimal.rs"], [("signed add/sub/negate", "decimal.rs")],
  "property-based testing against exact big-integer arithmetic", "Differential against exact signed arithmetic." + ORA)
P("C02", "Decimal multiplication and division round exactly as promised",
  "The plain product and quotient of two fixed-point numbers are the exact result truncated towards zero at the promised scale, the round-up variants are the exact result rounded away from zero, and signs follow arithmetic. A zero divisor or an unrepresentable result is refused.",
  ["inputs"], "every pair of signed fixed-point numbers and scales, with every target scale",
  "Rounding direction is visible only on results with a remainder at the last digit, in every sign and scale combination; tests use a few round values.",
  ["decimal.rs"], [("mul, mul_up, div, div_up, div_to_scale", "decimal.rs")],
  "property-based testing against exact rational arithmetic", "Differential against exact rationals." + ORA)
P("C03", "Rescaling and amount conversion keep the value and round as named",
  "Converting a fixed-point number to another scale, to a whole token amount or to a machine integer preserves sign and value up to one unit of the target scale, rounding down or up as the operation says. A value that does not fit its target is refused, never truncated.",
  ["inputs"], "every signed fixed-point number, every target scale and target type",
  "The cases that go wrong are negative values, values just past a type's range, and rounding of an exact multiple; tests convert small positive values.",
  ["decimal.rs"], [("to_scale, to_scale_up, to_amount, Into<...>", "decimal.rs")],
  "property-based testing against exact arithmetic and round trips", "Differential against exact arithmetic." + ORA)
P("C04", "Decimal comparison is the numeric order",
  "Comparisons between fixed-point numbers of one scale agree with numeric order for all signs, including a zero produced with a negative sign; exactly one of less, equal and greater holds. Comparing different scales is refused.",
  ["inputs"], "every pair of signed fixed-point numbers, including zeros of either sign and results of arithmetic",
  "Signed zeros only appear as results of arithmetic; the tests compare literals.",
  ["decimal.rs"], [("lt, lte, gt, gte, eq", "decimal.rs")],
  "property-based testing against numeric order", "Differential against integer order." + ORA)
P("C05", "Parsing and printing decimals round-trip; malformed text is refused",
  "Printing a fixed-point number and parsing the text gives the number back, a decimal literal (with sign, fraction and exponent) parses to exactly the value it denotes or is refused with an error, and malformed text yields an error. Parsing never aborts and never returns a different value.",
  ["inputs"], "every representable number, every literal of the grammar, arbitrary byte strings",
  "Parsing has many digit/exponent/sign combinations; the tests parse a fixed list.",
  ["decimal.rs"], [("FromStr, Display", "decimal.rs")],
  "property-based testing and grammar fuzzing against an exact parser", "Round-trip and differential against an independent parser." + ORA)
P("C06", "Square root is exact to one unit, monotone, and refuses negatives",
  "The square root of a non-negative fixed-point number is the exact root truncated within one unit of its scale and is monotone in its argument; the search for it always terminates. A negative argument is refused.",
  ["inputs"], "every fixed-point number of every scale, perfect squares and their neighbours",
  "Newton iteration converges or stops early depending on the value; the tests take a few roots.",
  ["decimal.rs"], [("sqrt and its initial estimate", "decimal.rs")],
  "property-based testing against exact integer roots", "Differential against big-integer square roots." + ORA)
P("C07", "Powers match exact powers, with sign, within truncation error",
  "Raising a fixed-point number to an integer or supported fractional power gives the exact power within the truncation error of its repeated multiplications, with the sign arithmetic dictates, reciprocal for negative exponents and one for exponent zero. An unsupported exponent or a power that does not fit is refused, and a power that fits is not.",
  ["inputs"], "every signed base and every integer exponent, and every supported fractional exponent",
  "Error and overflow depend on the bit pattern of the exponent; the tests check single values.",
  ["decimal.rs"], [("pow over integers and decimals", "decimal.rs")],
  "property-based testing against exact rational powers with an error bound", "Differential with a proved truncation bound." + ORA)

P("C08", "Natural logarithm matches the real logarithm and refuses the undefined",
  "The natural logarithm of a positive fixed-point number is the real logarithm within a fixed small absolute error, wherever the argument lies relative to a power of two, and so respects order and products. The bit length is the integer part of the binary logarithm; zero (for the logarithm) and negative arguments are refused.",
  ["inputs"], "every positive fixed-point number and scale; powers of two, one and their neighbours; zero and negatives",
  "The table-driven algorithm normalises by a power of two and loses all digits when that is off by one or badly scaled; tests take a handful of arguments above one.",
  ["decimal.rs"], [("ln, bit_length, log table", "decimal.rs")],
  "property-based testing against a floating-point oracle with an error bound, and algebraic laws", "Oracle: f64 logarithm (error far below the bound)." + ORA)
P("C09", "Ticks and prices convert both ways without drifting off by one",
  "A tick's root price is the tick base raised to half the tick, strictly increasing, within accumulated truncation. Converting a root price back gives the tick whose interval contains it (a tick's own price maps to that tick), in both search directions and from any search start, and snapping to the grid of a spacing gives the nearest multiple at or below.",
  ["inputs"], "every tick in range, prices on, one unit beside and between ticks, spacings, directions, search starts",
  "Logarithms and repeated products are off in the last digit, which is exactly where a tick boundary decides; tests check a few ticks.",
  ["cl_pool/cl_math.rs", "cl_pool_float/cl_math.rs"], [("tick_to_rp, rp_to_tick, rp_to_tick_loop, tick_to_possible_tick", "cl_pool/cl_math.rs"), ("float forms", "cl_pool_float/cl_math.rs")],
  "property-based testing: round trip and order relations, error bound against f64", "Decimal and float." + ORA)
P("C10", "Liquidity and token amounts correspond exactly as the pricing formulas say",
  "The liquidity bought by token amounts over a price range, and the amounts a liquidity is worth, equal the closed formulas within rounding of the last digit for prices below, inside, at the ends of and above the range. The liquidity granted is never worth more than what was offered, and the tick forms agree with the price forms.",
  ["inputs"], "every range, price, amounts and liquidity of the supported domain, degenerate and extreme ones included",
  "Rounding direction and behaviour at the range ends are invisible on the few round values the tests use.",
  ["cl_pool/cl_math.rs", "cl_pool_float/cl_math.rs"], [("liq_x_only, liq_y_only, liq_from_x_y_rp_rng, x_from_l_rp_rng, y_from_l_rp_rng", "cl_pool/cl_math.rs")],
  "property-based testing against exact rational arithmetic with derived error bounds", "Exact rationals for both the decimal and the float forms." + ORA)
P("C11", "Range bounds computed from amounts invert the amount formulas",
  "The lower and upper price bounds computed from liquidity or from the two token amounts are the bounds for which the amount formulas give those amounts, within rounding. Combinations with no such bound (no liquidity, a negative or infinite bound) are refused.",
  ["inputs"], "every liquidity, price and pair of amounts; amounts derived from every position",
  "Inverse formulas subtract nearly equal numbers and divide by them; the tests check single examples.",
  ["cl_pool/cl_math.rs", "cl_pool_float/cl_math.rs"], [("rpa_from_l_rp_y, rpb_from_l_rp_x, rpa_from_x_y_rp_rpb, rpb_from_x_y_rp_rpa", "cl_pool/cl_math.rs")],
  "property-based testing against exact rationals, and round trips position -> amounts -> bounds", "Decimal and float." + ORA)
P("C12", "One swap step's amounts and new price agree and never favour the trader",
  "For liquidity and a price move, the reserve changes equal the constant-product formulas within rounding, are zero for no move, reverse when the move is reversed and add up over split moves. The price reached for a given input is never further than that input pays for, and not short of it by more than rounding.",
  ["inputs"], "every liquidity, pair of prices and input amount of the supported domain",
  "The direction of one-unit rounding errors decides who gains; tests use a few values without remainders.",
  ["cl_pool/cl_math.rs", "cl_pool_float/cl_math.rs"], [("dx_from_l_drp, dy_from_l_drp, rp_new_from_l_dx, rp_new_from_l_dy", "cl_pool/cl_math.rs")],
  "property-based testing against exact rationals, reversal and additivity relations", "Decimal and float." + ORA)
P("C13", "The hybrid curve's amounts follow its closed form for every curvature",
  "The reserve changes priced by the hybrid curve equal its closed form for every supported curvature, oracle and price move in either direction, within truncation, including the logarithmic case at curvature one. No move costs nothing, and an unsupported curvature is refused.",
  ["inputs"], "curvatures 1, 1.25, 1.5, 2, 3 and below one, in floats any curvature from 0 to 4 including ones within 1e-4 of one; prices, oracles, liquidity; both directions; decimal and float",
  "The formula has a separate branch per curvature and per token, with fractional and negative powers; tests evaluate it at single points.",
  ["cl_pool/cl_math.rs", "cl_pool_float/cl_math.rs"], [("dx_from_l_drp_hmm, dy_from_l_drp_hmm", "cl_pool/cl_math.rs")],
  "property-based testing against the f64 closed form with an error bound; decimal against float", "Oracle in cancellation-free f64." + ORA)

HN = " Histories of deposits, top-ups, withdrawals, fee claims and swaps (tick-targeted amounts, oracles, hybrid curvatures) run on the decimal and the float pool; shrunk failures are the replay files."
def H(id, title, statement, text, why, mech, note):
    P(id, title, statement, ["histories", "configurations"], text, why,
      ["cl_pool/mod.rs", "cl_pool/cl_components.rs", "cl_pool_float/mod.rs", "cl_pool_float/cl_components.rs"],
      [(mech, "cl_pool/mod.rs"), (mech, "cl_pool_float/mod.rs")],
      "stateful model-based property testing (generated operation histories against a reference model)", note + HN + ORA)
ALLH = "every history of deposits, withdrawals, claims and swaps by several users, every tick spacing, fee rate, curvature and oracle"
H("C14", "Liquidity in range is always the sum of the positions covering the price",
  "After every operation the pool's active liquidity equals the sum of the liquidity of the positions whose range contains the current tick, the set of active ticks is exactly the set of position bounds, and the recorded positions are those opened and not yet emptied.", ALLH,
  "The liquidity is kept incrementally, added and subtracted at tick crossings; an error appears only after certain crossings, landings exactly on a tick, or overlapping bounds.",
  "liquidity bookkeeping at deposit, withdrawal and tick crossing", "Exact equality for the decimal pool.")
H("C15", "The pool's tick always matches its price and lies on the grid",
  "After every operation the pool's current tick is a multiple of the tick spacing and its interval contains the current root price; deposits, withdrawals and claims move neither.", ALLH,
  "Tick and price are stored separately and updated by different code at crossings, gaps and exact landings.",
  "price and tick update in swaps", "Exact for the decimal pool; 1e-12 relative for the float pool.")
H("C16", "No token appears or disappears in any pool operation",
  "Every swap's reported input equals the growth of reserve plus fee pot of that token and its reported output equals what left the reserve less what went to the adjustment pot, to the last unit; withdrawals pay exactly the share of the removed liquidity, and what a deposit or withdrawal pays out of earned fees and adjustments leaves their pots. No reserve, pot or liquidity is ever negative.", ALLH,
  "Input, fee, output and adjustment are summed per step over several ticks; slips show only on multi-tick swaps, partial fills or caps.",
  "accounting of swaps and withdrawals", "Exact for the decimal pool.")
H("C17", "Reserves always cover every position, with no surplus beyond rounding",
  "After every operation the reserves are at least what all open positions are worth at the current price, and exceed it by no more than the accumulated rounding. In any order, every provider can withdraw everything to the end.", ALLH,
  "It is a global invariant over rounding directions in all operations; no unit test withdraws everything after a random history.",
  "rounding of deposits, swap steps and withdrawals", "Tolerance is an explicit rounding budget per operation.")
H("C18", "A swap respects its limits: input, direction, price band, reported figures",
  "A swap never consumes more than the offered input, never pays or charges a negative amount and moves the price only in its own direction; it leaves input unfilled only when no liquidity is left that way. Its average price lies between the initial and the final price, and the reported average and final prices match the amounts and the pool, as do the reported input, output, fee and adjustment.", ALLH,
  "Violations need crossings, gaps, exhaustion or tiny amounts.", "swap loop and its result", "Checked on every swap of the history.")
H("C19", "Swap results equal the constant-product curve traced across all ranges",
  "The amount consumed, the amount released from the reserve and the final price of any swap equal, within rounding, those of walking the piecewise constant-product curve given by the open positions, across active ticks and over ranges without liquidity.", ALLH,
  "The result depends on the whole layout of positions and on every crossing; the tests check a few layouts.", "swap loop, tick crossing, gap handling", "Reference is an independent f64 walk.")
H("C20", "Swap fees are exactly the configured rate of the input",
  "The fee charged by a swap is the configured fee rate of the input it consumed, within rounding, however many ticks it crosses, is taken in the input token, and is zero at rate zero.", ALLH,
  "The fee is computed per step in two different ways (full step, final step).", "fee computation in swap steps", "Checked on every swap.")
H("C21", "Fees and adjustments go to in-range positions pro rata, and only once",
  "Every fee and adjustment a swap collects accrues to the positions in range while it was collected, in proportion to liquidity; touching a position pays exactly what it has accrued since its last touch, and a new position starts from nothing. What is in the fee and adjustment pots always equals what providers have accrued and not yet been paid.", ALLH,
  "Growth is tracked per unit of liquidity with outside snapshots per tick; errors need particular sequences of crossings, bound sharing and touches.", "growth accumulators, outside snapshots, position collection", "Per-position accrual model; slack is the rounding of growth per unit.")
H("C22", "Hybrid pricing charges exactly the curve's adjustment, only towards the oracle",
  "With a curvature set, a swap that moves the price towards or through the oracle from its adverse side is paid the hybrid curve's amount up to the oracle and the plain amount beyond; the difference goes to the adjustment pot. Otherwise, or without curvature or oracle, there is no adjustment.", ALLH,
  "Depends on the position of oracle, start and end price in each step, per direction and curvature.", "hybrid adjustment in swap steps", "Oracle in f64 with truncation bounds.")
H("C23", "Deposits take what the granted liquidity needs, never more than offered",
  "A deposit takes the amounts the granted liquidity is worth at the current price over the chosen range, never more than offered of either token, and uses up the scarcer of the two within rounding.", ALLH,
  "Rounding direction at every price position (below, inside, above, on a bound) matters.", "deposit", "Checked at every deposit.")
H("C24", "Every swap that can pay something completes, leaving a usable pool",
  "A swap with positive input and more than dust of output never aborts, whatever the history, the amount, the oracle and the curvature, and neither does the one after it.", ALLH,
  "Aborts come from rounding at exact boundaries, emptied reserves, negative intermediate values and unusual curvatures after particular histories.", "swap loop and its internal assertions", "Swaps whose output is below rounding dust may be refused.")
H("C25", "Nobody's funds get stuck: deposits, claims and withdrawals always succeed",
  "Opening, topping up, claiming and (partly or fully) withdrawing a position never aborts, whatever happened before and in whatever order providers leave, and pays the share and everything earned.", ALLH,
  "Aborts come from one-unit rounding shortages when the last providers leave or when growth differences go below zero.", "deposit, withdraw, collection", "Closing withdrawals empty the pool in a generated order.")

H("C26", "Splitting trades, trading back, or depositing and leaving earns nothing",
  "Swapping an amount at once or in two parts gives the same totals within rounding (input, fee, output, final price); swapping the proceeds straight back never returns more than was paid, beyond rounding; and depositing then withdrawing at once, in one or several parts, never gains and loses at most rounding, leaving the pool as it was.", ALLH,
  "Each needs two or more related operations after an arbitrary history; rounding in the trader's favour is invisible in a single operation.",
  "swap and deposit/withdraw rounding", "Metamorphic relations between histories.")
H("C27", "Who provides, in which order, and liquidity elsewhere do not change trades",
  "Deposits made in another order, or the same positions held by one owner instead of several, leave the same pool and give the same results for every later swap; a further position over a range the price never enters changes no swap, and somebody joining or leaving does not change what others have already earned. The total paid out in fees does not depend on how positions are split among owners.", ALLH,
  "These are relations between two histories; iteration order over positions and ticks, key collisions and stray updates break them.",
  "position keys, tick updates, active-tick search", "Metamorphic relations; exact for the decimal pool.")
H("C28", "Invalid operations are refused and leave the pool untouched",
  "Negative amounts, empty or inverted ranges, withdrawing more than a position holds, from another owner's position or a range not held, swaps of nothing, and pools with a negative price, curvature or fee or a curvature above two are all refused, leaving the pool unchanged (a withdrawal of nothing by somebody without a position leaves no trace either); later operations behave as if nothing had been tried.", ALLH + "; every kind of invalid request at every point",
  "Refusals are tested one by one on fresh pools, never in the middle of a history nor for their after-effects.",
  "input validation in pool operations", "State compared before and after every refusal.")
P("C29", "The decimal pool and the float pool agree on every history",
  "Run side by side on the same deposits, withdrawals and swaps, the fixed-point pool and the floating-point pool grant the same liquidity, charge and pay the same amounts, and end at the same price, liquidity, active ticks and positions, within the representation error of either.",
  ["histories", "configurations"], "every history in the domain both represent, every spacing, fee rate, curvature and oracle",
  "The two are separate implementations of one design; unit tests never compare them.",
  ["cl_pool/mod.rs", "cl_pool_float/mod.rs"], [("decimal pool", "cl_pool/mod.rs"), ("float pool", "cl_pool_float/mod.rs")],
  "differential property-based testing of two implementations", "Drift bound grows with tick, hops and liquidity; histories are cut where it exceeds 1e-7." + ORA)

OC = " The real program entry point runs against an in-process chain stand-in (accounts, signatures, writability, rollback, account creation, the real SPL token processor)."
def O(id, title, statement, text, why, files, mech, note):
    P(id, title, statement, ["histories", "inputs"], text, why, files, mech,
      "stateful property-based testing of program instructions against a reference model", note + OC + ORA)
ALLI = "every sequence of pool, bitmap, tick and position initialisations, deposits and withdrawals by several users on two pools"
ON = ["instructions/deposit.rs", "instructions/withdraw.rs", "instructions/manage_position.rs", "instructions/manage_tick.rs"]
O("C30", "On-chain initialisation writes exactly the documented state, once",
  "Initialising a pool, its bitmap, a tick or a position records exactly the given accounts, tick and derived root price with everything else zero, vaults owned by the pool, and cannot be done twice for the same key. A position over an inverted or empty range, over ticks that do not exist or are not its own, a tick or position at another's address, and a pool whose LP mint somebody else controls, whose vaults are swapped or whose authority did not sign, are refused.", ALLI,
  "No unit test executes an instruction; account derivation and initial values are only seen end to end.",
  ["instructions/initialize_pool.rs", "instructions/manage_bitmap.rs", "instructions/manage_tick.rs", "instructions/manage_position.rs"],
  [("initialize_pool", "instructions/initialize_pool.rs"), ("initialize_tick, create_position", "instructions/manage_tick.rs")], "Checked on every created account.")
P("C31", "The tick bitmap is a set: activate, unset and query never interfere",
  "After any sequence of activations and deactivations, exactly the ticks activated and not since deactivated are reported active, for every tick the bitmap can hold, whatever the order and repetition.",
  ["histories"], "every sequence of activations and deactivations over all ticks",
  "Bits share bytes; interference shows only for particular pairs of ticks; tests use a few.",
  ["state/tick_bitmap.rs"], [("activate_tick, unset_tick, tick_is_active", "state/tick_bitmap.rs")],
  "stateful property-based testing against a reference set", "Every tick queried after each sequence." + ORA)
P("C32", "Next-active-tick search finds the nearest active tick, or none",
  "From any tick, searching down gives the greatest active tick strictly below and searching up the smallest strictly above, or nothing when there is none, wherever the ticks lie relative to byte boundaries and the ends of the map; the search within one byte agrees bit by bit.",
  ["inputs", "histories"], "every set of active ticks, every starting tick, both directions; every byte, index and direction",
  "Bytes before, at and after the start are treated by different code; tests check a few sets.",
  ["state/tick_bitmap.rs"], [("get_next_tick, byte_get_next_tick", "state/tick_bitmap.rs")],
  "property-based testing against a reference set", "Starts include every active tick and its neighbours." + ORA)
O("C33", "On-chain liquidity records equal the sums over the positions",
  "After every instruction the pool's liquidity equals the sum of the positions whose range contains the current tick, and each tick's net and gross liquidity equal the signed and plain sums over positions bounded there, also when a bound is the current tick; price and tick do not move.", ALLI,
  "The records are kept incrementally in separate accounts, some of which may be the same account in one instruction.", ON,
  [("update_position", "instructions/manage_position.rs"), ("update_tick", "instructions/manage_tick.rs"), ("global liquidity", "instructions/deposit.rs")], "Exact equality.")
O("C34", "On-chain token flows match liquidity and vaults always cover positions",
  "A deposit debits what the granted liquidity is worth, rounded up and never above the amounts given, and mints the whole units granted; a withdrawal burns the LP tokens and credits the share rounded down; vault changes mirror user changes. Vaults always cover all positions and LP supply never exceeds position liquidity, also when LP tokens change hands.", ALLI,
  "Rounding of whole tokens decides who gains, on every deposit; insolvency appears only after several users.", ON,
  [("deposit transfers", "instructions/deposit.rs"), ("withdraw transfers", "instructions/withdraw.rs")], "Exact rational worth as oracle.")
O("C35", "Only the owner, with the right accounts and signature, can move funds",
  "A deposit or withdrawal in which any account is replaced by another of the same or another kind, a signature is missing, another user stands in for the owner (even with the owner paying), a tick argument does not match, or more is withdrawn than the position and the LP tokens held allow, always fails and changes nothing.", ALLI + ", tampered in every account, signature and argument",
  "Account constraints are declarative; each missing one is a hole no functional test notices.", ON,
  [("account constraints", "instructions/deposit.rs"), ("account constraints", "instructions/withdraw.rs")], "LP tokens may be minted to anyone's account of that mint, by design.")
O("C36", "On-chain deposits and withdrawals that should succeed do",
  "Every deposit within the supported range and every withdrawal of at most the position's liquidity and the LP tokens held succeeds, in every order, until everything has been withdrawn.", ALLI,
  "A stuck withdrawal needs a history: rounding, shared tick accounts, order of leaving.", ON,
  [("deposit handler", "instructions/deposit.rs"), ("withdraw handler", "instructions/withdraw.rs")], "Amounts outside the fixed-point range are not judged.")
O("C37", "On-chain instructions change only the accounts they are about",
  "A deposit or withdrawal changes no account other than its own position, its bound ticks, the pool, bitmap, mint, vaults and the user's token accounts; other users, pools, positions and ticks, and the pool's recorded identity, stay byte for byte the same.", ALLI,
  "Stray writes hit accounts a functional test does not look at.", ON,
  [("account mutability", "instructions/deposit.rs"), ("account mutability", "instructions/withdraw.rs")], "All other accounts compared byte for byte.")
O("C38", "Emitted events report what actually moved",
  "Every successful deposit or withdrawal emits exactly one liquidity event whose token and LP amounts equal the balance changes it made.", ALLI,
  "Event amounts are computed apart from the transfers; no test observes them.", ["instructions/deposit.rs", "instructions/withdraw.rs", "events/mod.rs"],
  [("emit LiquidityAdded", "instructions/deposit.rs"), ("emit LiquidityRemoved", "instructions/withdraw.rs")], "Events captured at the log call.")
O("C39", "On-chain position touches record the fee growth inside their range",
  "Given global fee growth and per-tick outside growth as crossings leave them, touching a position records as its last collected fee exactly the growth that happened while the price was inside its range, for both tokens and both kinds of fee, wherever the current tick is.", "every sequence of growth, price moves across bounds and position touches",
  "Three cases (below, inside, above) per bound and four fee kinds; fees are never non-zero in the tests.", ["instructions/manage_fee.rs", "instructions/deposit.rs", "instructions/withdraw.rs"],
  [("compute_latest_fee, fee_earned_within_range", "instructions/manage_fee.rs")], "Growth is written into the accounts as swaps would (no swap instruction exists yet); growth totals stay below a token.")

PYN = " The Python code runs in an interpreter of its own, driven over a pipe; an exception is a refusal."
P("C40", "The Python pool model keeps accounts and curve on every history",
  "The pool model in cl_python/v3_pool.py, over any sequence of deposits, top-ups, claims, withdrawals and swaps, keeps liquidity, tick and price consistent with the positions, conserves tokens, covers every position, prices swaps by the constant-product or hybrid curve across all ranges, distributes fees and adjustments pro rata once, and never refuses an operation it can carry out.",
  ["histories", "configurations"], "every history of valid operations, every spacing, fee rate, curvature and oracle, positions above tick 0",
  "Nothing tests the model at all, and its users compare implementations against it.",
  ["cl_python/v3_pool.py"], [("Pool.deposit, Pool.withdraw", "cl_python/v3_pool.py"), ("Pool.execute_swap_from_X, Pool.execute_swap_from_Y", "cl_python/v3_pool.py")],
  "stateful model-based property testing (generated operation histories against a reference model)", "1e-9 relative." + PYN + ORA)
P("C41", "The Python pool model offers no free lunch and refuses invalid requests",
  "In cl_python/v3_pool.py splitting a trade, trading there and back, or depositing and leaving earns nothing beyond rounding; who provides the liquidity, in which order, and liquidity elsewhere do not change trades; a newcomer does not change what the others have earned; invalid deposits, withdrawals and swaps raise an exception and leave the pool as it was.",
  ["histories", "inputs"], "every history and trade, every rearrangement of deposits, every kind of invalid request",
  "Relations between runs; nothing tests the model at all.",
  ["cl_python/v3_pool.py"], [("Pool._set_position", "cl_python/v3_pool.py"), ("Pool.execute_swap_from_X", "cl_python/v3_pool.py")],
  "metamorphic property-based testing", "1e-9 relative." + PYN + ORA)
P("C42", "The Python pricing formulas match the exact ones",
  "The formulas of cl_python/v3_pool.py - tick and price conversion, liquidity and amounts of a range, range bounds from amounts, swap steps and the hybrid curve - give the exact value within float rounding; ticks round to the stated side, and tick forms equal price forms.",
  ["inputs"], "every price, range, liquidity and amount in the domain, prices on and one float beside a tick included",
  "Errors sit next to tick prices and at range ends; nothing tests the model at all.",
  ["cl_python/v3_pool.py"], [("Pool static formulas", "cl_python/v3_pool.py"), ("Pool.rP_to_tick", "cl_python/v3_pool.py")],
  "property-based testing against exact rationals and closed forms", "Error bounds derived from conditioning." + PYN + ORA)
P("C43", "Printed receipts agree with what the pools booked",
  "In the decimal, the float and the Python pool, the amounts a deposit prints as debited, returned and included from fees, those a withdrawal prints as sent, and the figures a swap prints (amounts, reserves, prices, fees, adjustments) equal what the operation changed in reserves and pots and what the swap returned, on every history.",
  ["histories", "configurations"], "every history of valid operations, deposits that also collect fees and adjustments included",
  "Deposits and withdrawals return nothing: the receipt is the only statement of what the caller owes or gets, and no test reads it.",
  ["cl_pool/mod.rs", "cl_pool_float/mod.rs", "cl_python/v3_pool.py"], [("Pool::deposit, Pool::withdraw", "cl_pool/mod.rs"), ("Pool::execute_swap_from_x, Pool::execute_swap_from_y", "cl_pool/mod.rs")],
  "stateful property-based testing (printed figures against observed state changes)", "Exact for the decimal pool, 1e-12 relative for floats. Figures that are not printed, or not under the names they have now, are not judged." + ORA)
P("C44", "Pool records hold and return what is written to them",
  "The record types of the decimal and float pools - global, tick and position state, single-step and whole-swap results - return exactly the figures written to them, sums of added liquidity included, leave the other figures alone, and refuse negative liquidity, wrong signs and withdrawals beyond what is held.",
  ["inputs", "histories"], "every sequence of writes and reads with values of every size and sign",
  "The records are public and carry every figure between the pool's parts; tests read them only where a swap happens to.",
  ["cl_pool/cl_components.rs", "cl_pool_float/cl_components.rs"], [("GlobalState, TickState, PositionState", "cl_pool/cl_components.rs"), ("GlobalState, TickState, PositionState", "cl_pool_float/cl_components.rs"), ("SwapWithinResult, SwapOutput", "cl_pool/cl_components.rs")],
  "model-based property testing (random writes and reads against a plain model)", "Exact." + ORA)
