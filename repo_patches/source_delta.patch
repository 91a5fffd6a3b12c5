From 281ad919fd7c99d64a94bd24d4a80e415a89b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 01/13] fix: keep the price-sums of all recipes equal when a
 recipe uses several agents of a category

The simultaneous price increase in prices_integer raised all chosen prices by
the same amount, so with recipes such as [1,2,0] and [1,0,1] the price-sums of
the recipes diverged, and the auction ended with prices that do not balance.
---
 prices_integer.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index a75f326..aa261a6 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -219,28 +219,38 @@ class SimultaneousAscendingPriceVectors:
         #if any([ipr!=1 for ipr in increases_per_recipe]):
         #    raise ValueError("There must be exactly one increase per recipe!")
 
+        # The price-sum in each recipe must increase by the same amount. A category that participates x times
+        #    in a recipe changes the price-sum x times faster than its price, so its price should increase x times slower.
+        multiplicities = [self.multiplicity(category_index) for (category_index,_,_) in increases]
         increase_to_upper_bound = sum_upper_bound - self.price_sum()
-        increases_to_new_prices = [new_price - self.vector[category_index]
-                                   for (category_index,new_price,_) in increases]
+        increases_to_new_prices = [(new_price - self.vector[category_index]) * multiplicity
+                                   for ((category_index,new_price,_), multiplicity) in zip(increases,multiplicities)]
         min_increase_to_new_price = min(increases_to_new_prices)
         min_increase = min(min_increase_to_new_price, increase_to_upper_bound)
         if min_increase == increase_to_upper_bound:
             self.status = PriceStatus.STOPPED_AT_ZERO_SUM
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for ((category_index, new_price, description), multiplicity) in zip(increases,multiplicities):
+                fixed_new_price = self.vector[category_index] + min_increase / multiplicity
                 logger.info("{}: while increasing price towards {}, stopped at {} where the price-sum crossed {}".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
         else: # min_increase == min_increase_to_new_price:
             self.status = PriceStatus.STOPPED_AT_AGENT_VALUE
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
-                if fixed_new_price == new_price:
+            for ((category_index, new_price, description), multiplicity, increase) in zip(increases,multiplicities,increases_to_new_prices):
+                if increase == min_increase:
+                    fixed_new_price = float(new_price)  # set the price directly, to avoid rounding errors in the division.
                     logger.info("{}: price increases to {}".format(description, new_price))
                 else:
+                    fixed_new_price = self.vector[category_index] + min_increase / multiplicity
                     logger.info("{}: while increasing price towards {}, stopped at {} where an agent from another category left".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
+    def multiplicity(self, category_index:int)->int:
+        """
+        :return: the number of agents of the given category in each recipe that contains it
+           (this number must be the same in all recipes that contain it).
+        """
+        return max(recipe[category_index] for recipe in self.ps_recipes) * self.agent_counts[category_index]
 
     def __str__(self):
         return str(self.vector) + " " + str(self.status)
-- 
2.43.0


From 2c02bb65861895dc18b2ac9eb01d19ca3dd6cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 02/13] fix: choose an initial price that belongs to one recipe
 only

calculate_initial_prices in prices_integer adjusted the price of the last
category of each recipe, even when that category is shared by several recipes.
When the shared root of the recipe-tree had the largest index, it raised
ValueError or returned initial prices with different sums.
---
 prices_integer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index aa261a6..35d6466 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -290,11 +290,15 @@ def calculate_initial_prices(ps_recipes:List[List[int]], max_price_per_category:
     for i in range(len(ps_recipes)):
         recipe = ps_recipes[i]
         for j in range(num_categories - 1, -1, -1):
-            if recipe[j] > 0:
+            # The adjusted price must belong to this recipe only; otherwise, the adjustment changes the sum of another recipe.
+            if recipe[j] > 0 and all([other[j]==0 for k,other in enumerate(ps_recipes) if k!=i]):
                 if price_vector[j] != max_price_per_category:
                     raise ValueError("Cannot determine initial prices: "+str(price_vector))
                 price_vector[j] = float(max_price_per_category * (max_weighted_depth - weighted_depths[i] + recipe[j])/recipe[j])
                 break
+        else:
+            if weighted_depths[i] != max_weighted_depth:
+                raise ValueError("Cannot determine initial prices: there is no category that belongs only to recipe "+str(recipe))
     return price_vector
 
 if __name__ == "__main__":
-- 
2.43.0


From 894462657763c7cb992b8e93a4cad5bd93247207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 03/13] fix: combine the deals of all children when counting
 deals per path

combined_values_detailed_with_counters in recipetree_integer raised TypeError
on every tree in which a category has a child, so optimal_trade_with_counters,
and the experiments that use it, crashed.
---
 recipetree_integer.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index aab26aa..4ebc643 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -393,24 +393,21 @@ class RecipeTree (NodeMixin):
         self_values.sort(reverse=True)
         value_sets = []
         current_set = []
+        deals_counter = {'counter': 0}  # a single counter for all the deals in the path that ends at this leaf.
         for value in self_values:
             current_set.append(value)
             if len(current_set) == self.agent_count:
-                value_sets.append((current_set, {'counter': 0}))
+                value_sets.append((current_set, deals_counter))
                 current_set = []
 
         if len(self.children) > 0:
-            children_values = [child.combined_values_detailed_with_counters() for child in self.children]
-            #children_values.sort(key=lambda x: sum(x[0]), reverse=True)
-            #Get the min size
-            min_len = min(len(value_sets), len(children_values))
+            #put the deals of all children together; each deal is a tuple of a set of values and a counter:
+            children_values = sum([child.combined_values_detailed_with_counters() for child in self.children],[])
+            children_values.sort(key=lambda x: sum(x[0]), reverse=True)
             #zip the parent with its child value
-            for i in range(min_len):
-                children_values[i] = ([*children_values[i][0], *self_values[i]], children_values[i][1])
-            value_sets = children_values
+            value_sets = [([*a[0], *b[0]], b[1]) for (a,b) in zip(value_sets, children_values)]
 
             logger.debug("children_values: %s", value_sets)
-        value_sets.sort(key=lambda x: sum(x[0]), reverse=True)
         return value_sets
 
     def combined_values_detailed(self) -> list:
-- 
2.43.0


From 9f36a0c1620d3287869eacf30ba5a911b35a0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 04/13] fix: let every trader who prefers to trade join the
 trade-reduction lottery

With recipes that use several agents of a category, a trader whose value is
strictly above the price could be left out, e.g. recipe [2,3] with buyers
6,6,4 and sellers -1,-1,-1,-1,-3: the buyer with value 4 is excluded though the
price is 1.5, and gains by reporting 6. So the auction was not truthful.
---
 trade_reduction_protocol.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trade_reduction_protocol.py b/trade_reduction_protocol.py
index 7695443..e0a5c77 100644
--- a/trade_reduction_protocol.py
+++ b/trade_reduction_protocol.py
@@ -281,6 +281,15 @@ def budget_balanced_trade_reduction(market:Market, ps_recipe:list, including_gft
                 pivot_value = ps[pivot_index]
                 actual_traders[pivot_index_to_category_index[pivot_index]].append(pivot_value)
     logger.info("\n")
+    if latest_prices is not None:
+        # Once the prices are determined, every trader who prefers to trade must participate in the lottery;
+        #   otherwise, a trader with a value above the price could gain by reporting a higher value.
+        for category_index in range(market.num_categories):
+            if ps_recipe[category_index] > 0:
+                category_traders = actual_traders[category_index]
+                for value in market.categories[category_index].values[len(category_traders):]:
+                    if value > latest_prices[category_index]:
+                        category_traders.append(value)
     result = TradeWithSinglePrice(actual_traders, ps_recipe, latest_prices)
     logger.info(result)
     return result
-- 
2.43.0


From 98a3d47d706ab620605788d4cb9855ee79794fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 05/13] fix: compute the gain-from-trade when a category
 outside the recipe is empty

With a recipe such as [1,0,1], gain_from_trade divided by the size of the
category that does not participate, and raised ZeroDivisionError when it has
no agents.
---
 trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trade.py b/trade.py
index b191868..25eaa94 100644
--- a/trade.py
+++ b/trade.py
@@ -124,6 +124,8 @@ class TradeWithSinglePrice (Trade):
         for i in range(self.num_categories):
             category = self.categories[i]
             agents_per_deal = self.ps_recipe[i]
+            if agents_per_deal==0:
+                continue    # this category does not participate in the deals, and may be empty.
             participating_agents_in_category = agents_per_deal*self.num_of_deals_cache
             probability_to_participate_in_trade = participating_agents_in_category/len(category.values)
             price_per_agent_per_deal = self.prices[i]
-- 
2.43.0


From 4fafacbc4911c65b49ec621243d32e405eeeddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 06/13] fix: let the price of a category without traders rise
 without limit, so that the auction on a recipe tree always ends

---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index 2ec3382..fe66985 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -173,7 +173,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf  # no trader is left, so the price is unlimited
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 8db1487..692a61d 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -169,7 +169,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf  # no trader is left, so the price is unlimited
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
-- 
2.43.0


From f4be34381bd16dc2e9b329b1160e1d2a01560ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 07/13] fix: compute the optimal trade of a recipe tree with a
 single category

---
 recipetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.py b/recipetree.py
index f235b68..585c21f 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -326,7 +326,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>=0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>=0]
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0


From a01f0483409695c6171262d68479f4e6e7120b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 08/13] fix: treat a trader with value 0 as a seller when the
 deal contains a buyer, in the McAfee auction

---
 mcafee_protocol.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mcafee_protocol.py b/mcafee_protocol.py
index ecbdcfe..6fef162 100644
--- a/mcafee_protocol.py
+++ b/mcafee_protocol.py
@@ -33,13 +33,21 @@ def is_price_good_for_ps(price:float, ps:list)->bool:
     False
     """
     for i in range(len(ps)):
-        if ps[i] >= 0 and price > ps[i]:
+        if is_seller(ps,i):
+            if -price > ps[i]:
+                return False   # price too low for a seller
+        elif price > ps[i]:
             return False   # price too high for a buyer
-        elif ps[i] <= 0 and -price > ps[i]:
-            return False   # price too low for a seller
     return True
 
 
+def is_seller(ps:list, i:int)->bool:
+    """
+    Decides if the i-th trader in the given PS is a seller. A trader with value 0, in a PS with a buyer, is a seller.
+    """
+    return ps[i] < 0 or (ps[i] == 0 and max(ps) > 0)
+
+
 
 def mcafee_trade_reduction(market:Market, ps_recipe:list, price_heuristic=True):
     """
@@ -166,7 +174,7 @@ def mcafee_trade_reduction(market:Market, ps_recipe:list, price_heuristic=True):
 
         if price_heuristic and is_price_good_for_ps(price_candidate, last_positive_ps):
             # All optimal traders trade in the candidate price - no reduction
-            prices = [price_candidate * (-1 if last_positive_ps[i]<0 else +1)
+            prices = [price_candidate * (-1 if is_seller(last_positive_ps,i) else +1)
                       for i in range(market.num_categories)]
 
         else:
-- 
2.43.0


From 072c5f726e5979a1c7d7623480079a7bd8c050fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 09/13] fix: remove traders only from categories whose price is
 raised, so that ties on a recipe tree do not lose additional deals

---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index fe66985..75b0db3 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -186,7 +186,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 692a61d..5536709 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -182,7 +182,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
-- 
2.43.0


From ed1dd63b2ae669b7e8218152553b0c83bec6e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 10/13] fix: use McAfee's common price only with two
 categories, because it runs a deficit with more

---
 mcafee_protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcafee_protocol.py b/mcafee_protocol.py
index 6fef162..f5ef699 100644
--- a/mcafee_protocol.py
+++ b/mcafee_protocol.py
@@ -164,6 +164,7 @@ def mcafee_trade_reduction(market:Market, ps_recipe:list, price_heuristic=True):
             category.append(-MAX_VALUE)
     logger.info("Optimal trade, by increasing GFT: {}".format(optimal_trade))
     first_negative_ps = remaining_market.get_highest_agents(ps_recipe)
+    price_heuristic = price_heuristic and market.num_categories==2   # with more categories, a common price is not balanced.
     if price_heuristic:
         price_candidate = sum([abs(x) for x in first_negative_ps]) / len(first_negative_ps)
         logger.info("First negative PS: {}, candidate price: {}".format(first_negative_ps, price_candidate))
-- 
2.43.0


From 64ccf9a269ce62c383dd3cde5d5dda1891ca9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 11/13] fix: do not say that all traders are selected when some
 cannot complete a deal

---
 recipetree_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index 4ebc643..1618c6c 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -673,7 +673,7 @@ class RecipeTree (NodeMixin):
             sum_children_names = " + ".join(children_names)
             num_of_deals = min(sum_children_num_of_deals,self_num_of_deals)
             explanation = "".join(children_explanations)
-            if num_of_deals==self_num_of_deals:
+            if num_of_deals * self.agent_count == self.category.size():
                 explanation += "{}: all {} traders selected, price={}\n".format(self.name, self.category.size(), self_price)
             else:
                 explanation += "{}: {} out of {} traders selected, price={}\n".format(self.name, num_of_deals * self.agent_count, self.category.size(), self_price)
-- 
2.43.0


From 8dbfa7875096aa93a161db9c545fa44cd247eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 12/13] fix: count all agents of a category when a single price
 rises up to balance

---
 prices_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index 35d6466..3bfb981 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -113,7 +113,7 @@ class AscendingPriceVector:
         ('PriceStatus.STOPPED_AT_ZERO_SUM', 0.0, 50.0)
 
         """
-        category_count_in_recipe = self.ps_recipe[category_index]
+        category_count_in_recipe = self.ps_recipe[category_index] * self.agent_counts[category_index]
         sum_without_category = self.price_sum_without_category(category_index)
         new_sum = sum_without_category + category_count_in_recipe*new_price
         if new_sum >= sum_upper_bound:
-- 
2.43.0


From 279556f33f86957c686f633a0913e219601bcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 13/13] fix: report 0 and not 99999 as the smallest number of
 deals per path when there is no optimal trade

---
 recipetree.py         | 2 +-
 recipetree_integer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipetree.py b/recipetree.py
index 585c21f..0cb3336 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -304,7 +304,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if t[0]>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
diff --git a/recipetree_integer.py b/recipetree_integer.py
index 1618c6c..c201569 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -452,7 +452,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if sum(t[0])>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
-- 
2.43.0

