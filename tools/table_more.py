P("P16", "Every auction ends with a well-formed answer",
  "Every auction ends after a number of steps bounded by the size of the market, whatever the values inside the documented range (equal, zero, at the limits, without short binary form), with any categories empty and any recipe or tree, and returns a complete trade: one category list and, when deals are made, one price per category, enough traders for its deals, and no trader that is not in the market.",
  ["inputs", "configurations"], "all hostile markets inside the documented value range, for every auction",
  "Tests have a few small well-behaved markets; an endless loop needs an empty category, a capped price or rounding at just the right place.",
  AUC + PR + RT, [REMAIN, PRICES], [("each round removes a trader or stops at balance", "protocol main loops"), ("empty categories rise without a target", "ascending_auction_recipetree protocols, prices.py increase_prices")],
  "runtime monitor with a logical step counter (sys.monitoring) under hostile markets", "Termination is decided by counted source lines, never by wall clock; one genuine endless loop was found and fixed.", "the returned trade and the number of executed lines")
P("P17", "Different descriptions and implementations of a market agree",
  "The optimal trade of a recipe tree that is a single path equals the optimal trade of the market with that recipe; the integer tree with one trader per category answers and trades like the plain tree when all recipes have equally many traders; renumbering the categories of such a tree, or adding a category that no recipe uses, changes nothing for the others in any ascending or external-competition auction.",
  ["inputs", "configurations"], "all markets, recipes and trees with their equivalent descriptions",
  "Tests treat every module separately and never compare two modules or two numberings.",
  RT + AUC + ["markets.py"], [REMAIN], [("two copies of tree, prices and protocol", "recipetree.py/recipetree_integer.py, prices.py/prices_integer.py, both tree protocols"), ("unused categories are ignored", "ascending_auction_protocol.py relevant categories; recipe counts of zero")],
  "differential runtime monitor over equivalent descriptions", "Outcomes (deals, traders, prices, gain) of the pair are compared.", "pairs of returned trades and tree answers")
P("P18", "Each auction follows its documented process",
  "Ascending auction: the price of the category with the most traders per recipe place (the first on ties) rises, its lowest trader leaves, until the prices of a deal add up to zero. External competition: optimal deals compete from the least gain up, and the first trader whose replacement deal has no negative gain (positive gain, if so requested) sets all prices. McAfee: trade all k at the average of the two (k+1)-st values when both k-th traders accept it, else k-1 deals at the k-th values. Tree auctions: prices of the largest categories rise together. Deals, traders and prices are exactly those of the process.",
  ["inputs", "configurations"], "all markets, recipes, trees, number types and options of the five auctions",
  DOCT + "; tie-breaking, options, uneven recipes and stop conditions interact in too many ways to sample by hand.",
  AUC + PR + RT + ["markets.py"], [REMAIN, PRICES], [("choice of the next category", "ascending_auction_protocol.py main loop; recipetree.py largest_categories"), ("competition order and external price", "trade_reduction_protocol.py; markets.py best_containing_PS, calculate_prices_by_external_competition"), ("price candidate", "mcafee_protocol.py is_price_good_for_ps")],
  "runtime monitor comparing every outcome with an independent exact reference process", "References are written from the documentation in exact arithmetic; undecidable roundings are skipped and counted.", "the returned trade")
P("P19", "Auctions do not depend on the unit of money or on internal transfers",
  "Multiplying all values of a market by a positive factor multiplies prices and gains by it and leaves deals and traders as they were, for every auction; adding a constant to all values of a category and taking the same total from another within every deal shifts the prices accordingly and changes nothing else, for the single-recipe ascending and external-competition auctions and for single-recipe trees.",
  ["inputs"], "all markets inside the documented value range, with all their rescaled and shifted twins",
  "The property relates pairs of executions; tests look at single runs with values between 1 and 20.",
  AUC + PR + ["markets.py", "trade.py"], [PRICES], [("only differences of values and sums of deals are compared", "protocol main loops"), ("starting price far below every value", "MAX_VALUE in protocols and markets.py")],
  "relational (metamorphic) runtime monitor over rescaled and shifted markets", "Powers of two from 2^-40 (exact arithmetic) to 2^16; shifts that cancel within a deal.", "pairs of returned trades")
P("P20", "Stock data is imported without loss, duplication or change of sign",
  "Every stock file in the folder becomes one market of whole thousandths: High and Close prices are buyers, Open and Low prices are sellers with negative value, added up or repeated only as the recipe requires so that the categories fit the recipe; for recipe trees every price is used at most once, in the requested proportions, sign and multiples; shuffled imports are a permutation of all prices of the file, the same one whenever it is asked for again.",
  ["inputs", "configurations"], "all price files, folders, recipes, proportions and multiples",
  "The import has no tests at all.",
  ["get_stocks_data.py"], [("keep_all_prices", "prices already imported per stock", "get_stocks_data.py keep_all_prices")], [("recipe-dependent layout", "get_stocks_data.py getPrices"), ("proportional split", "get_stocks_data.py get_prices_tree")],
  "runtime monitor of imports from generated files against a conservation model", "Multisets of imported values are compared with the files; scratch folders only.", "the returned price lists")
P("P21", "Experiment tables report exactly the runs that were made",
  "An experiment runs the requested auctions on the requested number of freshly drawn markets, each with the requested number of traders per category and values in the requested range or from the given stock prices, every auction of a comparison on the same market; each row states labels, mean counts, gains, ratios to the optimal trade and wins of exactly those runs, in order, earlier rows of an existing file are kept (or, where documented, the experiment is skipped), and the report of differences names exactly the runs in which the compared auctions differ.",
  ["inputs", "configurations", "histories"], "all recipes, trees, sizes, ranges, numbers of iterations and auctions, for every experiment module",
  "Experiments have no tests; their tables are the published results.",
  ["experiment.py", "experiment_comparing_sbb.py", "experiment_ascending_auction_recipetree_random.py", "experiment_ascending_auction_recipetree_integer_random.py", "experiment_ascending_auction_recipetree_stock.py", "experiment_ascending_auction_recipetree_integer_stock.py",
   "stock/experiment_stock.py", "stock/experiment_compare_iterations_autions.py", "stock/experiment_compare_iterations_autions_without_mcafee.py", "stock/experiment_compare_sbb_shufled_stock.py"],
  [("sums", "totals accumulated over iterations", "experiment functions"), ("table", "rows written to the CSV file", "TeeTable")], [("market generation", "experiment functions"), ("means and ratios", "results_table.add in the experiment functions")],
  "runtime monitor: wrapped auctions record every run, the table is recomputed from the records", "Ten experiment modules; optima recomputed independently; all files in scratch folders.", "the recorded runs and the CSV file")
P("P22", "Weights derived from a recipe tree balance every recipe",
  "The depth, largest category and number of children computed from a recipe tree are right, and the weights given to categories for experiments balance: with the buyers at the root, the weights of the sellers of every recipe add up to the weight of the buyers, one less than the longest recipe, the last seller taking up the difference; the tree is left unchanged.",
  ["inputs"], "all recipe trees",
  "The module prints two examples and has no tests.",
  ["tree_calculations.py"], None, [("weights by remaining depth", "tree_calculations.py get_agents_analyze"), ("depth and children", "tree_calculations.py get_depth_and_agents_size, get_children_counts")],
  "runtime monitor over generated trees against path-based oracles", "Cheap and dense: tens of thousands of trees.", "returned depths, counts and weights")
P("P23", "Random traders have the requested number, range, sign and distribution",
  "A randomly drawn category has exactly the requested name and number of traders, sorted, with whole values; uniform values stay within the (rounded) bounds and reach the whole range, normal, gamma and Pareto values have the requested sign, scale and parameters; the draw depends only on the random generator's state.",
  ["inputs", "configurations"], "all distributions, parameters, sizes and seeds",
  "Random draws have no tests; properties of distributions need many samples.",
  ["agents.py"], None, [("drawing and rounding", "agents.py uniformly_random, normalvariate_random, gammavariate_random, paretovariate_random")],
  "runtime monitor of draws: range, sign, size and distribution", "Large samples with tolerances of eight standard errors.", "the values of the drawn category")
P("P24", "Shipped demos and studies run to the end and only on sound auctions",
  "Every demonstration and study script runs to its end, on random draws as well as on stock prices, and writes nothing outside its results folder; the auction run under a label or heading is the one it names, with the type and options it names, the trades and numbers of deals a demonstration prints are those of its auctions, and a results file holds the recipe and the kind of draws its name states; and every auction it runs makes feasible, balanced, individually rational trades, no more than the optimum and exactly those of the documented process, also with the real numbers, types and sizes of the studies.",
  ["inputs", "configurations"], "all shipped demos and studies (except one that imports a missing module), all seeds of their random draws and all windows of the shipped stock prices",
  "The scripts have no tests at all; the library's tests use hand-made markets, never the stock prices or the options of the studies.",
  ["mcafee_experiment.py", "ascending_auction_experiment.py", "comparing_sbbs.py", "experiment_comparing_mcafee_to_sbb.py", "experiment_recpietree.py", "experiment_recpietree_integer.py", "stock/experiment_comparing_all_with_all_recipes.py", "get_stocks_data.py", "experiment.py"],
  None, [("labels and options of the auctions", "arguments of experiment(...) in the studies"), ("recipes, sizes and value ranges", "the studies' module level")],
  "end-to-end runtime monitor: real scripts with every auction intercepted and judged", "Sizes and iterations are thinned out; each intercepted auction gets the verdicts of P01, P02, P04, P05/P06 and P18.", "the auctions, labels, files and exit of every script")
P("P25", "Superseded modules that still run keep their promises",
  "The first recipe tree reports the right paths, recipes, combined values, optimal trade (deals that gain something), rising categories, number of deals and explanation for every tree; the first simultaneous clocks start at equal sums and keep them equal, rising as far as the nearest target or zero; the multi-recipe ascending auction with separate recipes is balanced, individually rational and feasible, keeps the best traders, loses at most one deal of a single recipe when values differ, and leaves the market as it was; recipes, of these clocks and of the multi-buyer and multi-recipe auctions, are read or refused as documented.",
  ["inputs", "histories"], "all trees, increase histories, markets and recipe lists that the superseded modules accept",
  DOCT + " of one or two examples each; nothing else runs these modules.",
  ["recipetree.old.py", "old/SimultaneousAscendingPriceVector.py", "old/ascending_auction_multirecipe_protocol.py", "old/ascending_auction_multibuyer_protocol.py"],
  None, [("largest categories by combined size", "recipetree.old.py largest_categories"), ("increase to the least new sum", "old/SimultaneousAscendingPriceVector.py increase_prices"), ("recipe analysis", "old/*_protocol.py _analyze_recipes, _convert_recipes_to_seller_counts")],
  "runtime monitor of the superseded modules against independent models", "The multi-recipe auction is judged on recipes that share no category; the multi-buyer auction itself is unfinished and not judged.", "answers of trees, clocks and auctions")
