#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing the table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AUC = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py"]
TREE = ["ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py"]
SINGLE = AUC[:3]
PR = ["prices.py", "prices_integer.py"]
RT = ["recipetree.py", "recipetree_integer.py"]
T = []


def P(pid, title, statement, over, qtext, why, files, state, mech, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = [observe]
    assert len(title) <= 80, title
    T.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, technique, note))


PRICES = ("prices", "one price per category, negative for traders who are paid", "prices.py AscendingPriceVector.prices; Trade.prices")
REMAIN = ("remaining market", "the traders who have not left", "remaining_market in the ascending auctions, actual_traders in trade reduction")
DOCT = "The existing tests are doctests and a few dozen hand-picked markets with printed outcomes"

P("P01", "Strong budget balance of every auction",
  "Whenever an auction makes at least one deal, the prices of the traders in one deal add up to zero for every recipe that can be used, so the auctioneer neither gains nor loses; the documented exception is McAfee's classic auction, whose auctioneer never loses money. This holds for every market, recipe, recipe tree and number type.",
  ["inputs", "configurations"], "all markets, recipes and recipe trees, for each of the five auctions and their options",
  DOCT + "; none of them adds up the prices, and deal-weighted sums with several traders per category or several recipes are never examined.",
  AUC + PR, [PRICES], [("clock stops when the price sum hits zero", "prices.py increase_price_up_to_balance / increase_prices"), ("price of the pivot completes the sum to zero", "markets.py calculate_prices_by_external_competition"), ("equal starting sums of all recipes", "calculate_initial_prices")],
  "runtime monitor of every auction outcome under generated and hostile markets", "The monitor adds up recipe-weighted prices in exact rationals; 100k (quick) to millions of markets.", "the returned trade")
P("P02", "Individual rationality and real traders only",
  "No trader who remains in the trade is asked to pay more, or is paid less, than the value it reported, and every trader in the trade is a trader of the market: nobody is invented, duplicated or moved to another category. This holds for every auction, market and recipe.",
  ["inputs", "configurations"], "all markets, recipes and recipe trees, for each auction",
  DOCT + "; prices are never compared with every remaining trader's value.",
  AUC + ["markets.py"], [REMAIN, PRICES], [("traders below the price leave", "remove_lowest_agent after each increase"), ("external competitors set the price", "trade_reduction_protocol.py main loop")],
  "runtime monitor of every auction outcome against the reported values", "Every remaining trader's value is compared with its category's price, and the multiset of traders with the market.", "the returned trade and the input market")
P("P03", "Truthfulness: no trader gains by misreporting",
  "No trader can increase its expected utility (its chance to trade times its value minus its price) by reporting another value than its true one, whatever the others report; while a trader stays in the trade its report has no influence on what it pays. For the external-competition auction this is required of recipes with one trader per category, of McAfee's auction when buyers have positive and sellers negative values.",
  ["inputs", "histories"], "all markets with any single trader's report replaced by any other report",
  "Tests never run the same market twice with a changed report; the property relates pairs of executions.",
  AUC, [REMAIN, PRICES], [("price is set by leavers or external competitors, never by the trader itself", "protocol main loops"), ("lottery among remaining traders does not look at values", "trade.py")],
  "relational runtime monitor: each market is re-run with adversarial misreports", "Deviations target the values, prices and thresholds of the market. TR with multi-trader recipes is a known finding, re-run on every check.", "pairs of returned trades")
P("P04", "The announced trade is feasible and the best traders stay",
  "The traders who remain suffice for the announced number of deals, and one more deal would not be possible; in every category exactly the highest-valued traders remain and whoever values the deal above the final price has not been left out. Traders who tie with the price may be on either side. (McAfee's auction: when buyers have positive and sellers negative values.)",
  ["inputs"], "all markets, recipes and recipe trees, for each auction",
  DOCT + " and show the printed categories, not whether they could support another deal or who was dropped.",
  AUC + ["trade.py"], [REMAIN], [("number of deals is the scarcest category's size over its count", "trade.py TradeWithSinglePrice"), ("number of possible deals of a tree", "recipetree.py num_of_deals_explained")],
  "runtime monitor of every auction outcome against feasibility models", "Feasibility is recomputed by independent models, including a dynamic programme over recipe trees.", "the returned trade")
P("P05", "Near-optimality of the single-recipe auctions",
  "An auction with a single recipe never makes more deals than the optimal trade, and when values differ it loses at most the least valuable of the optimal deals, hence keeps at least a share (1-1/k) of the optimal gain, k being the number of optimal deals. The reported gain never exceeds the optimal gain.",
  ["inputs"], "all markets and recipes for the three single-recipe auctions",
  "Tests compare a few printed outcomes; the bound against an independent optimum is never checked.",
  SINGLE + ["markets.py"], [REMAIN], [("one category at a time loses its lowest trader", "ascending_auction_protocol.py main loop"), ("at most one deal is sacrificed", "trade_reduction_protocol.py, mcafee_protocol.py")],
  "runtime monitor comparing every outcome with an independent optimum", "Upper bounds for all markets, lower bounds for markets with differing values.", "the returned trade")
P("P06", "Near-optimality of the recipe-tree auctions",
  "A recipe-tree auction never makes more deals nor reports more gain than the optimal trade of the tree, and when values differ it makes at most one deal less per recipe; with one trader per category it keeps at least a share (1-1/kmin) of the optimal gain, kmin being the number of optimal deals of the least used recipe.",
  ["inputs"], "all markets and recipe trees for both recipe-tree auctions",
  "Tests pin printed outcomes of a handful of trees; the optimum of a tree is never computed independently.",
  TREE + RT, [REMAIN], [("prices of the largest categories rise together", "recipetree.py largest_categories"), ("simultaneous clocks", "prices.py increase_prices")],
  "runtime monitor comparing every outcome with a dynamic-programming optimum", "Optimum by max-plus dynamic programming, no greedy argument.", "the returned trade")
P("P07", "The optimal trade of a market is optimal",
  "The optimal trade of a market with one recipe has the largest total gain possible, contains every deal that can still be made without loss, lists deals in increasing gain, and together with the remaining market contains every trader exactly once. Its options (iteration limit, excluding deals of zero gain) cut it off at exactly the stated point, and the market itself is left unchanged.",
  ["inputs", "configurations"], "all markets, recipes and option values",
  "Four doctests with distinct small integers cannot show optimality; exhaustive search over subsets does.",
  ["markets.py", "agents.py", "trade.py"], [("remaining market", "clone from which the best deals are taken", "markets.py optimal_trade")], [("repeatedly take the best traders of each category", "markets.py optimal_trade, get_highest_agents, remove_highest_agents")],
  "runtime monitor with exhaustive-search and greedy reference oracles", "Exhaustive on small markets, independent greedy model on large ones.", "the returned trade and remaining market")
P("P08", "The optimal trade of a recipe tree is optimal",
  "For every recipe tree the reported optimal trade has the largest total gain possible, each of its deals follows one root-to-leaf recipe with the right number of traders of every category, no trader is used twice, and the reported number of deals, gain and least and most deals per recipe agree with it.",
  ["inputs", "configurations"], "all markets, recipe trees and trader counts, for both tree implementations",
  "Doctests cover a few three- to five-category trees; optimality over recipe choices needs an independent optimum.",
  RT, [("combined values", "deals of a subtree ordered by gain", "recipetree.py combined_values*")], [("children's deals are merged and matched with the root's best traders", "recipetree.py combined_values_detailed, optimal_trade, optimal_trade_with_counters")],
  "runtime monitor with a max-plus dynamic-programming oracle", "Gains, counts, deal shapes and trader use are judged for every API that reports the optimum.", "the returned deals, counts and gains")
P("P09", "A price clock ascends to its target and never overshoots the bound",
  "Through any history of increases, a price rises exactly to its target when the recipe-weighted price sum stays below the bound, and otherwise exactly to the point where the sum equals the bound; only that price moves, the status tells which of the two happened, and queries of hypothetical sums agree with the prices.",
  ["histories", "inputs"], "all recipes, initial prices, bounds, number types and histories of increases and queries",
  "Doctests run two histories of four steps with the default bound.",
  PR, [PRICES, ("status", "why the last increase ended", "prices.py PriceStatus")], [("increase up to balance", "prices.py increase_price_up_to_balance")],
  "runtime monitor of operation histories against an exact model", "Exact rational arithmetic; after every step the whole state is compared.", "prices, sums and status after every operation")
P("P10", "Simultaneous clocks keep all recipe sums equal",
  "The starting prices give every recipe the same price sum and no category starts above the cap; a simultaneous increase moves every named price by the same amount per deal, as far as the nearest target or the bound, leaves the others alone and keeps the sums of all recipes equal. An increase that would not raise every recipe exactly once is rejected without effect.",
  ["histories", "inputs", "configurations"], "all recipe trees, trader counts, caps, bounds and histories of increases over cuts of the tree",
  "Doctests use one tree and one history; initial prices only two or three recipe pairs.",
  PR, [PRICES], [("initial prices solve a linear system", "calculate_initial_prices"), ("uniform increase", "increase_prices"), ("one increase per recipe", "increase_prices verification")],
  "runtime monitor of operation histories over random recipe trees", "Sums of all recipes, uniform steps, stops, rejections and initial prices are judged after every step.", "prices, sums and status after every operation")
P("P11", "Recipe trees: recipes, rising prices and possible deals are right",
  "The recipes of a tree are exactly its root-to-leaf paths with the stated trader counts; the categories whose prices rise next contain exactly one category of every recipe and are the most abundant; the number of possible deals equals the largest number of deals the traders can form, and its explanation is consistent. This stays true while traders leave one by one.",
  ["inputs", "histories"], "all recipe trees, trader counts and category sizes, and all orders in which traders leave",
  "Doctests use a handful of trees and sizes and never let traders leave.",
  RT, [("sizes", "number of traders per category", "agents.py AgentCategory.values")], [("largest categories", "recipetree.py largest_categories"), ("number of deals", "recipetree.py num_of_deals, num_of_deals_explained"), ("paths and recipes", "recipetree.py paths_to_leaf, recipes")],
  "runtime monitor of tree queries over departure histories with exhaustive oracles", "Compared with a dynamic programme and, for small trees, exhaustive search.", "answers of the tree queries")
P("P12", "Auctions are pure and deterministic",
  "An auction leaves its market, recipe and options as they were, and its outcome depends only on them: not on the order in which traders are listed, on earlier or concurrent auctions in the same process, on requests that failed before, on whether tracing is on, on Python's hash seed, or on category names. Nothing else of the process changes (random state, settings, files). The returned trade stays what it was when the market is changed later.",
  ["schedules", "histories", "inputs"], "all markets; repeated, interleaved and concurrent runs; tracing on and off",
  "Tests run each auction once on a fresh market in one thread with tracing off.",
  AUC + ["markets.py", "agents.py"], [REMAIN], [("auctions work on a clone", "market.clone() in every protocol"), ("categories copy and sort their values", "agents.py AgentCategory")],
  "relational runtime monitor: permuted, repeated, traced, interleaved and threaded re-runs", "A process with another hash seed is asked too, and an audit hook watches for files, sockets and subprocesses. Threads run with a tiny switch interval; every outcome is compared with an isolated run.", "pairs of returned trades and the inputs after the call")
P("P13", "Malformed requests are refused and leave no trace",
  "A recipe whose length differs from the number of categories, an empty list of recipes, recipes of different lengths, a deal with the wrong number of traders and similar malformed requests are refused with an error, whatever the market, and leave the market as it was; McAfee's auction accepts only recipes with one trader per category.",
  ["inputs", "fault_sequences"], "all markets combined with malformed requests to every public entry point that validates",
  "Tests contain no malformed request except two McAfee doctests.",
  AUC + PR + ["markets.py"], None, [("length checks raise ValueError", "protocol entry points, markets.py optimal_trade and append_PS, prices.py")],
  "fault-injecting runtime monitor", "Malformed arguments of every kind the code validates; state compared before and after.", "the raised error and the state after it")
P("P14", "Reports state exactly what the trade contains",
  "The reported gain equals the expected gain of the remaining traders under the announced lottery (without the auctioneer: minus what they pay), the printed report names every participating category with its traders, its true price and the true number who trade, a deal list reports the sum and number of its deals, and an empty trade is reported as no trade.",
  ["inputs", "configurations"], "all trades: outcomes of every auction and trades built directly from categories, recipe and prices",
  DOCT + " of the common case; gains are hardly checked, empty and unused categories never.",
  ["trade.py"] + TREE, [("number of deals", "cached when the trade is built", "trade.py")], [("gain from trade", "trade.py gain_from_trade"), ("report", "trade.py __repr__")],
  "runtime monitor recomputing reports from the trade's data", "Gain, counts and text are recomputed independently.", "gain, counts and printed text of trades")
P("P15", "Categories and markets behave as sorted collections",
  "Through any history of adding, removing, looking up, copying and describing traders, every category stays sorted from highest to lowest value and holds exactly the traders its own history put there; copies, empty categories and the lists given or returned never share state.",
  ["histories"], "all histories of operations on markets, categories and their copies",
  "One doctest history per class; aliasing between copies is never exercised.",
  ["agents.py", "markets.py"], [("values", "sorted list of a category", "agents.py AgentCategory.values")], [("sort on insertion", "agents.py append"), ("clone", "agents.py/markets.py clone")],
  "runtime monitor of operation histories against a multiset model", "Every market ever cloned is compared with its own model after every step.", "state after every operation")
EXTRA = os.path.join(V, "tools", "table_more.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())

NA = []
have = [p for p in T if os.path.exists(os.path.join(V, "vmon", "props", p[0]["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in have: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    for p, r in NA: f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, pandas'",
       "checks": [{"property": p["id"], "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} quick", "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": t, "level": "exploration", "level_note": n} for p, t, n in have],
       "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
       "notes": "No hooks in /repo: the monitors observe at the public boundary and by wrapping library functions from outside. run.py PID --replay FILE re-runs a stored counterexample."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(have), "properties")
