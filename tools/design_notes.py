NOTES = {
"P01": ("every outcome of the five auctions, with all options and number types; recipe-weighted price sums of every recipe; the auctioneer's profit as total gain minus traders' gain.",
        "exact rational sums; McAfee's auction may keep money but never lose any.", "up to 160 (thorough 400) traders per category, 10 categories, tree of 8; about 25 s."),
"P02": ("every remaining trader of every outcome, and the multiset of traders per category.", "value compared with price; traders must be a sub-multiset of the market's category.", "as P01; about 25 s."),
"P03": ("pairs of executions: one trader of each market re-reports up to a dozen adversarial values (values of others, prices, thresholds, hairs beside them), expected utility before and after is compared.",
        "utility = chance in the announced lottery times (true value - price); for trees the chance follows the level-by-level draw.", "all values differ; markets of up to 14 traders per category; about 40 s. TR with recipes of ones."),
"P04": ("remaining traders against announced deals, against the market and against final prices.", "number of possible deals by dynamic programming; remaining = the best values; excluded values above the price are a violation.", "as P01; about 25 s."),
"P05": ("deals and gain against the optimum.", "independent greedy optimum, itself compared with exhaustive search in P07.", "as P01; about 30 s."),
"P06": ("deals and gain of tree auctions against the optimum of the tree.", "max-plus dynamic programme over deals per subtree (no greedy or concavity argument).", "trees of up to 8 categories; about 25 s."),
"P07": ("`Market.optimal_trade` and everything it returns, with options; the market before and after; aliasing between them; the same market asked again after its traders change; deals that gain exactly nothing, or a hair (down to 2^-70) more or less.", "exhaustive search over subsets for up to about 8 traders per category, greedy model beyond.", "about 30 s."),
"P08": ("`optimal_trade`, `optimal_trade_GFT`, `optimal_trade_with_counters`, `combined_values*` of both tree implementations; near-ties apart by hairs.", "dynamic programme for gain and number; every deal must follow one path with the right counts; traders conserved.", "trees of up to 8 categories; about 10 s."),
"P09": ("`AscendingPriceVector` of both modules through histories of up to 25 increases and queries.", "exact model; whole state compared after every step, including increases a hair short of the bound.", "about 12 s."),
"P10": ("`SimultaneousAscendingPriceVectors` and `calculate_initial_prices` through histories over random cuts of random trees.", "sum of every recipe, exact expected step, status (also when a target lies exactly at the bound that stops the step), rejection without effect.", "trees of up to 14 categories, starts that are no round numbers, up to 12 traders per deal; about 30 s."),
"P11": ("`paths_to_leaf`, `recipes`, `largest_categories`, `num_of_deals`, `num_of_deals_explained` while traders leave one by one.", "dynamic programme, exhaustive search on small trees, textual explanation parsed and recomputed.", "trees of up to 10 categories, up to 12 traders per deal; about 30 s."),
"P12": ("repeat, permuted traders, tracing on, other names, after other auctions, in threads, after a malformed request, with the recipe list edited in place between calls, after later changes of market or outcome, with the process's surroundings snapshot before and after and an audit hook on files, sockets and subprocesses, under unusual process settings (recursion limit, environment variables, warning filters, garbage collection, decimal context, locale), counts and recipes given as lists which are edited later, in a fresh process with another hash seed, in a fresh process with and without related auctions first.", "the outcome of the first run.", "45 s budget for fresh processes; about 60 s."),
"P13": ("every entry point that validates, with every kind of malformed request.", "a ValueError, and the state printed before equals the state after.", "about 4 s."),
"P14": ("`num_of_deals`, `gain_from_trade`, printed reports of trades built directly (also with the same deal listed twice, and with hundreds of deals) and of auction outcomes.", "recomputed from categories, recipe and prices; the text is parsed.", "about 15 s."),
"P15": ("`AgentCategory` and `Market` under histories of up to 40 operations on a market and its copies, on integers, floats, near-equal fractions and repeated values; lists passed in are mutated afterwards; crowded categories (up to 2500 traders), long sorted lists appended, up to 700 traders removed at once.", "sorted-list model of every copy after every step.", "about 15 s."),
"P16": ("all auctions on hostile markets (empty categories, equal, zero, limits, non-dyadic, one-sided, many traders).", "step counter on executed source lines against a bound linear in traders times categories; well-formedness of the answer.", "about 30 s."),
"P17": ("pairs: path tree vs market, integer vs plain tree, renumbered categories, added unused category.", "equality of deals, traders, prices, gain, tree answers; up to 110 traders per deal.", "about 20 s."),
"P18": ("every outcome of every auction and option.", "independent reference processes in exact arithmetic, written from the documentation.", "as P01 plus recipes of up to 400 traders; about 45 s."),
"P19": ("pairs of markets scaled by powers of two (2^-40 to 2^16) or shifted within deals.", "the scaled or shifted outcome, within 1e-7 of the placeholder's rounding.", "about 25 s."),
"P20": ("`getStocksPrices`, `getStocksTreePrices`, `getStocksPricesShuffled` on generated folders (days with equal prices, prices in the millions, date columns of several kinds).", "multisets of the file's prices; per recipe layout model.", "scratch folders; about 8 s."),
"P21": ("ten experiment modules run to completion into scratch tables; the auctions they call are watched by swapping the functions' code objects (so that a reference held in a table is seen too) and every market and trade is recorded; stocks are run until exhausted and twin rows (equal markets under different labels) are included.", "the table is recomputed from the records and compared row by row; optima by independent models; in the shuffled studies stocks that sit a round out do not enter the averages.", "about 60 s."),
"P22": ("`tree_calculations` on random trees.", "recomputed depth, largest index, children; weights added up along every path; tree unchanged.", "trees of up to 10 categories; about 5 s."),
"P23": ("the four random constructors of `AgentCategory`.", "number, name, order, whole values, range and sign of every draw; means, quantiles and both ends of large samples and the whole distribution function within eight standard errors, down to requests smaller than one; equal generator states give equal draws and leave equal states.", "about 10 s."),
"P24": ("the 15 demos and 17 studies themselves, started with runpy in a scratch folder, on random draws and on windows of the shipped price files; sizes thinned out.", "every auction call intercepted: the verdicts of P01, P02, P04, P05/P06 and P18 on it; label against mechanism and options; files written; tables grow and keep earlier rows; the comparison scripts' percentages are recomputed; what a demo announces (type, mechanism, order of the categories) and prints (trades, optimum, number of deals) is that of the auctions it ran.", "256 script runs, about 14 000 auctions; about 50 s."),
"P25": ("`recipetree.old.py` over departures, the clocks of `old/` over histories, the multi-recipe auction on separate recipes, the recipe readers on well-formed and malformed lists, single recipes against the optimum.", "exact dynamic programme and explanation model; price model; balance, rationality, best traders, feasibility; expected reading or refusal.", "about 30 s."),
}
