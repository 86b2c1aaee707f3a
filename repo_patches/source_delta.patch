From fb84cbf54586fa9dc583d23e86f35db13cec575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 01/12] fix: gain_from_trade divided by zero for a
 non-participating empty category

A category with a zero in the recipe may have no agents; computing the gain
from trade of such a trade raised ZeroDivisionError.
---
 trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trade.py b/trade.py
index b191868..c953fb2 100644
--- a/trade.py
+++ b/trade.py
@@ -124,6 +124,8 @@ class TradeWithSinglePrice (Trade):
         for i in range(self.num_categories):
             category = self.categories[i]
             agents_per_deal = self.ps_recipe[i]
+            if agents_per_deal==0:
+                continue   # this category does not participate in the trade (it may even be empty)
             participating_agents_in_category = agents_per_deal*self.num_of_deals_cache
             probability_to_participate_in_trade = participating_agents_in_category/len(category.values)
             price_per_agent_per_deal = self.prices[i]
-- 
2.43.0


From 263904d162a093100ee60ff2d85615930a259abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 02/12] fix: recipe-tree auctions ran forever when an empty
 category's price hit its cap

The target price of an empty category was the finite MAX_VALUE. When a shorter
path starts from a much lower price, that target is reached before the price of
the shorter path; from then on no price increased and no agent left.
---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index 2ec3382..e0bee4b 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -173,7 +173,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 8db1487..62fa5b4 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -169,7 +169,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
-- 
2.43.0


From 8137970180125b8bb9f7f541d6fa4830ab6b019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/12] fix: integer recipe-tree: optimal trade with counters
 failed on any tree with children

The values of the children were not united into one list (TypeError on every
tree deeper than one node), the parent contributed a single agent instead of
agent_count agents, and each deal had its own counter instead of one per leaf.
---
 recipetree_integer.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index aab26aa..55421c2 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -393,21 +393,19 @@ class RecipeTree (NodeMixin):
         self_values.sort(reverse=True)
         value_sets = []
         current_set = []
+        deals_counter = {'counter': 0}  # one counter per leaf, shared by all its deals
         for value in self_values:
             current_set.append(value)
             if len(current_set) == self.agent_count:
-                value_sets.append((current_set, {'counter': 0}))
+                value_sets.append((current_set, deals_counter))
                 current_set = []
 
         if len(self.children) > 0:
-            children_values = [child.combined_values_detailed_with_counters() for child in self.children]
-            #children_values.sort(key=lambda x: sum(x[0]), reverse=True)
-            #Get the min size
-            min_len = min(len(value_sets), len(children_values))
-            #zip the parent with its child value
-            for i in range(min_len):
-                children_values[i] = ([*children_values[i][0], *self_values[i]], children_values[i][1])
-            value_sets = children_values
+            #the sum of lists of lists opens the lists to one list.
+            children_values = sum([child.combined_values_detailed_with_counters() for child in self.children], [])
+            children_values.sort(key=lambda x: sum(x[0]), reverse=True)
+            #zip the parent with its child value; the counter is that of the leaf
+            value_sets = [([*a, *b], counter) for ((a,_), (b,counter)) in zip(value_sets, children_values)]
 
             logger.debug("children_values: %s", value_sets)
         value_sets.sort(key=lambda x: sum(x[0]), reverse=True)
-- 
2.43.0


From e19b86b0342de1f55e2481d179286e6c94849da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 04/12] fix: integer prices: initial prices gave unequal recipe
 sums when an inner category had the highest index

The price that equalizes the sum of one recipe was that of its last category,
even when that category also belongs to other recipes, whose sums changed too
(or ValueError was raised).
---
 prices_integer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index a75f326..efb3793 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -280,14 +280,16 @@ def calculate_initial_prices(ps_recipes:List[List[int]], max_price_per_category:
     for i in range(len(ps_recipes)):
         recipe = ps_recipes[i]
         for j in range(num_categories - 1, -1, -1):
-            if recipe[j] > 0:
-                if price_vector[j] != max_price_per_category:
-                    raise ValueError("Cannot determine initial prices: "+str(price_vector))
+            # adjust the price of a category that does not affect the sum of any other recipe
+            if recipe[j] > 0 and sum([other[j] > 0 for other in ps_recipes]) == 1:
                 price_vector[j] = float(max_price_per_category * (max_weighted_depth - weighted_depths[i] + recipe[j])/recipe[j])
                 break
     return price_vector
 
 if __name__ == "__main__":
+        else:
+            if weighted_depths[i] != max_weighted_depth:
+                raise ValueError("Cannot determine initial prices: "+str(price_vector))
     import doctest
     (failures,tests) = doctest.testmod(report=True)
     print ("{} failures, {} tests".format(failures,tests))
-- 
2.43.0


From a7b27ef00d26947949e87e35a17c96979a2f856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 05/12] fix: integer recipe-tree auction was not
 budget-balanced when a recipe needs several agents of a category

All selected prices rose by the same amount, and the room left until the
price-sum crosses zero ignored the number of agents per deal, so the sums of
different recipes drifted apart and the auction could stop above zero.
---
 prices_integer.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index efb3793..c7d0b5e 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -220,21 +220,24 @@ class SimultaneousAscendingPriceVectors:
         #    raise ValueError("There must be exactly one increase per recipe!")
 
         increase_to_upper_bound = sum_upper_bound - self.price_sum()
-        increases_to_new_prices = [new_price - self.vector[category_index]
-                                   for (category_index,new_price,_) in increases]
+        # All recipe-sums must rise by the same amount, so a price that is paid 'count' times per deal rises by 1/count of it:
+        counts = [max([recipe[category_index] for recipe in self.ps_recipes]) * self.agent_counts[category_index]
+                  for (category_index,_,_) in increases]
+        increases_to_new_prices = [(new_price - self.vector[category_index]) * count
+                                   for ((category_index,new_price,_), count) in zip(increases, counts)]
         min_increase_to_new_price = min(increases_to_new_prices)
         min_increase = min(min_increase_to_new_price, increase_to_upper_bound)
         if min_increase == increase_to_upper_bound:
             self.status = PriceStatus.STOPPED_AT_ZERO_SUM
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for ((category_index, new_price, description), count) in zip(increases, counts):
+                fixed_new_price = self.vector[category_index] + min_increase / count
                 logger.info("{}: while increasing price towards {}, stopped at {} where the price-sum crossed {}".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
         else: # min_increase == min_increase_to_new_price:
             self.status = PriceStatus.STOPPED_AT_AGENT_VALUE
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for ((category_index, new_price, description), count) in zip(increases, counts):
+                fixed_new_price = self.vector[category_index] + min_increase / count
                 if fixed_new_price == new_price:
                     logger.info("{}: price increases to {}".format(description, new_price))
                 else:
@@ -284,12 +287,12 @@ def calculate_initial_prices(ps_recipes:List[List[int]], max_price_per_category:
             if recipe[j] > 0 and sum([other[j] > 0 for other in ps_recipes]) == 1:
                 price_vector[j] = float(max_price_per_category * (max_weighted_depth - weighted_depths[i] + recipe[j])/recipe[j])
                 break
-    return price_vector
-
-if __name__ == "__main__":
         else:
             if weighted_depths[i] != max_weighted_depth:
                 raise ValueError("Cannot determine initial prices: "+str(price_vector))
+    return price_vector
+
+if __name__ == "__main__":
     import doctest
     (failures,tests) = doctest.testmod(report=True)
     print ("{} failures, {} tests".format(failures,tests))
-- 
2.43.0


From 2749e82ce34f535bbd9db0a607155180033372ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 06/12] fix: recipe-tree auction raised TypeError on a tree
 with a single category

---
 recipetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.py b/recipetree.py
index f235b68..60c0638 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -326,7 +326,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>=0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>=0]   # in a tree of one category, t is a number
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0


From 891ac105382bfd84b3529472a363cd1af3fd3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 07/12] fix: integer prices: a price stopped at the wrong sum
 when an agent-count above one was given

---
 prices_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index c7d0b5e..b48fa25 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -113,7 +113,7 @@ class AscendingPriceVector:
         ('PriceStatus.STOPPED_AT_ZERO_SUM', 0.0, 50.0)
 
         """
-        category_count_in_recipe = self.ps_recipe[category_index]
+        category_count_in_recipe = self.ps_recipe[category_index] * self.agent_counts[category_index]
         sum_without_category = self.price_sum_without_category(category_index)
         new_sum = sum_without_category + category_count_in_recipe*new_price
         if new_sum >= sum_upper_bound:
-- 
2.43.0


From 65e4189b2d38a8abc0f8c6efcbebfda3097e8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 08/12] fix: run all requested iterations when the
 shuffled-stock study is given one size beyond the prices

---
 stock/experiment_compare_sbb_shufled_stock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stock/experiment_compare_sbb_shufled_stock.py b/stock/experiment_compare_sbb_shufled_stock.py
index 7298e10..6c7b7b4 100644
--- a/stock/experiment_compare_sbb_shufled_stock.py
+++ b/stock/experiment_compare_sbb_shufled_stock.py
@@ -87,7 +87,6 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                 if num_of_possible_ps < num_of_agents_per_category:
                     if last_iteration:
                         break
-                last_iteration = True
                 categories = []
                 buyer_agent_count = recipe[0]
                 index = 0
@@ -142,6 +141,7 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                     for index in range(len(results)):
                         if index > 2:
                             sum_result[index] = (results[index][0], sum_result[index][1] + results[index][1])
+            last_iteration = True
         for num_of_agents_per_category in nums_of_agents:
             results = total_results[str(num_of_agents_per_category)]
             if len(results) == 0:
-- 
2.43.0


From fb677a98bbe108c96293bff65a1d11f0c20a0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:29 +0000
Subject: [PATCH 09/12] fix: the shuffled-stock study failed on an auction
 named mcafee, or zeroed the cells of the auction before it

---
 stock/experiment_compare_sbb_shufled_stock.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/stock/experiment_compare_sbb_shufled_stock.py b/stock/experiment_compare_sbb_shufled_stock.py
index 6c7b7b4..6cf1a10 100644
--- a/stock/experiment_compare_sbb_shufled_stock.py
+++ b/stock/experiment_compare_sbb_shufled_stock.py
@@ -108,12 +108,6 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                            ("optimalcountwithgftzero", optimal_count_with_gft_zero),
                            ("optimalgft", optimal_gft)]
                 for auction_index in range(len(auction_functions)):
-                    if 'mcafee' in auction_names[auction_index]:
-                        results.append((auction_name + "auctioncount", 0))
-                        results.append((auction_name + "countratio", 0))
-                        results.append((auction_name + "gft", 0))
-                        results.append((auction_name + "gftratio", 0))
-
                     auction_trade = auction_functions[auction_index](market, recipe)
                     auction_count = auction_trade.num_of_deals()
                     # for j in range(len(stocks_prices[i])):
-- 
2.43.0


From 15f635560ac8282e45c30378fbe29bcd4e5dd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:25 +0000
Subject: [PATCH 10/12] fix: numbers below a ten-thousandth are not printed as
 their mantissa in the averages of the iterations study

---
 stock/experiment_compare_iterations_autions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stock/experiment_compare_iterations_autions.py b/stock/experiment_compare_iterations_autions.py
index 50b4618..a5e1bc3 100644
--- a/stock/experiment_compare_iterations_autions.py
+++ b/stock/experiment_compare_iterations_autions.py
@@ -47,6 +47,7 @@ from collections import OrderedDict
 from get_stocks_data import getStocksPricesShuffled
 import random
 from os import path
+from decimal import Decimal
 
 def experiment(results_csv_file:str, auction_functions:list, auction_names:str, recipe:tuple, nums_of_agents=None,
                stocks_prices:list=None, stock_names:list=None, num_of_iterations=1000, run_with_stock_prices=True,
@@ -231,6 +232,6 @@ def experiment(results_csv_file:str, auction_functions:list, auction_names:str,
 
 
 def padding_zeroes(result, num_digits:int):
-    str_result = str(result)
+    str_result = format(Decimal(str(result)), 'f')   # without an exponent
     str_result += ("0" * num_digits) if '.' in str_result else '.' + ("0" * num_digits)
     return str_result[0 : str_result.index('.') + num_digits + 1]
-- 
2.43.0


From cf1b6b8642e6de9b0339aeb27cb7e322317bf2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:45 +0000
Subject: [PATCH 11/12] fix: averages of the recipe-tree stock studies counted
 stocks and iterations that took no part in a size

---
 experiment_ascending_auction_recipetree_integer_stock.py | 7 ++++++-
 experiment_ascending_auction_recipetree_stock.py         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/experiment_ascending_auction_recipetree_integer_stock.py b/experiment_ascending_auction_recipetree_integer_stock.py
index cea6b75..193522b 100644
--- a/experiment_ascending_auction_recipetree_integer_stock.py
+++ b/experiment_ascending_auction_recipetree_integer_stock.py
@@ -71,8 +71,10 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     total_results = {}
+    total_runs = {} # how many runs were summed up for each number of agents
     for num_of_agents_per_category in nums_of_agents:
         total_results[str(num_of_agents_per_category)] = []
+        total_runs[str(num_of_agents_per_category)] = 0
     for i in range(len(stock_names)):
         for _ in range(num_of_iterations):
             last_iteration = False
@@ -128,6 +130,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                            ("gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100)
                            ]
                 #results_table.add(OrderedDict(results))
+                total_runs[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -137,6 +140,8 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                             sum_result[index] = (results[index][0], sum_result[index][1] + results[index][1])
     for num_of_agents_per_category in nums_of_agents:
         results = total_results[str(num_of_agents_per_category)]
+        if len(results) == 0: # no stock has so many agents
+            continue
         kmin = 0
         for index in range(len(results)):
             if index > 2:
@@ -145,7 +150,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                 #elif 'count' in results[index][0]:
                 #    results[index] = (results[index][0], results[index][1]/len(stock_names))
                 #else:
-                results[index] = (results[index][0], results[index][1]/len(stock_names)/num_of_iterations)
+                results[index] = (results[index][0], results[index][1]/total_runs[str(num_of_agents_per_category)])
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
             if results[index][0] == 'optimalkmin':
diff --git a/experiment_ascending_auction_recipetree_stock.py b/experiment_ascending_auction_recipetree_stock.py
index b99f56e..facf4cf 100644
--- a/experiment_ascending_auction_recipetree_stock.py
+++ b/experiment_ascending_auction_recipetree_stock.py
@@ -72,8 +72,10 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     total_results = {}
+    total_runs = {} # how many runs were summed up for each number of agents
     for num_of_agents_per_category in nums_of_agents:
         total_results[str(num_of_agents_per_category)] = []
+        total_runs[str(num_of_agents_per_category)] = 0
     for i in range(len(stock_names)):
         for _ in range(num_of_iterations):
             last_iteration = False
@@ -129,6 +131,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                            ("gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100)
                            ]
                 #results_table.add(OrderedDict(results))
+                total_runs[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -138,6 +141,8 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                             sum_result[index] = (results[index][0], sum_result[index][1] + results[index][1])
     for num_of_agents_per_category in nums_of_agents:
         results = total_results[str(num_of_agents_per_category)]
+        if len(results) == 0: # no stock has so many agents
+            continue
         kmin = 0
         for index in range(len(results)):
             if index > 2:
@@ -146,7 +151,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                 #elif 'count' in results[index][0]:
                 #    results[index] = (results[index][0], results[index][1]/len(stock_names))
                 #else:
-                results[index] = (results[index][0], results[index][1]/len(stock_names)/num_of_iterations)
+                results[index] = (results[index][0], results[index][1]/total_runs[str(num_of_agents_per_category)])
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
             if results[index][0] == 'optimalkmin':
-- 
2.43.0


From 25083a878c3747a6d8eaeb304dbaa4125ab5cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:04 +0000
Subject: [PATCH 12/12] fix: averages of the shuffled-stock study counted
 stocks that took no part in a size

---
 stock/experiment_compare_sbb_shufled_stock.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stock/experiment_compare_sbb_shufled_stock.py b/stock/experiment_compare_sbb_shufled_stock.py
index 6cf1a10..379f164 100644
--- a/stock/experiment_compare_sbb_shufled_stock.py
+++ b/stock/experiment_compare_sbb_shufled_stock.py
@@ -70,8 +70,10 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     average_total_results = {}
+    num_of_stocks = {}  # the number of stocks that took part in each size
     for num_of_agents_per_category in nums_of_agents:
         average_total_results[str(num_of_agents_per_category)] = []
+        num_of_stocks[str(num_of_agents_per_category)] = 0
 
     for i in range(len(stocks_prices)):
         total_results = {}
@@ -150,6 +152,7 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                 #    results[index] = (results[index][0], 'Average')
             results_table.add(OrderedDict(results))
 
+            num_of_stocks[str(num_of_agents_per_category)] += 1
             if len(average_total_results[str(num_of_agents_per_category)]) == 0:
                 average_total_results[str(num_of_agents_per_category)] = results[0:len(results)]
             else:
@@ -164,9 +167,9 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
         for index in range(len(results)):
             if index > 2:
                 if 'ratio' in results[index][0]:
-                    results[index] = (results[index][0], int(results[index][1]/len(stocks_prices)*1000)/1000)
+                    results[index] = (results[index][0], int(results[index][1]/num_of_stocks[str(num_of_agents_per_category)]*1000)/1000)
                 else:
-                    results[index] = (results[index][0], round(results[index][1]/len(stocks_prices), 1))
+                    results[index] = (results[index][0], round(results[index][1]/num_of_stocks[str(num_of_agents_per_category)], 1))
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
         results_table.add(OrderedDict(results))
-- 
2.43.0

