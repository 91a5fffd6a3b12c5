TREE_ALL = "recipetree.py recipetree_integer.py"
add("C10", "The optimal trade of a market is optimal and loses no trader",
    "The optimal trade that a market computes for a recipe has the largest gain from trade of any set of deals, also under a limit on the number of deals. Of the optimal trades it has the most deals, or, when deals without gain are excluded, the fewest. The traders in its deals together with the remaining market are exactly the traders of the original market, and the latter is unchanged.",
    "inputs", "all markets, all recipes with non-negative entries (zero included), all limits on the number of deals",
    TESTS + "about ten of them compute an optimal trade; optimality is a comparison with every other choice of traders.",
    "markets.py agents.py trade.py", [("the best PSs are taken while their gain is not negative", "markets.py: Market.optimal_trade"), ("highest agents of a category are taken out", "markets.py: get_highest_agents, remove_highest_agents; agents.py")],
    ["Market.optimal_trade: procurement_sets, num_of_deals(), gain_from_trade(), remaining market"], EXEC + ", against brute force over all choices of traders", SMALL)
add("C11", "The optimal trade on a recipe tree is optimal and counts its deals correctly",
    "For every recipe tree and every assignment of agents per category, the optimal gain from trade, the optimal number of deals and the listed deals are those of a welfare-optimal combination of deals over all root-to-leaf recipes. The smallest and largest number of optimal deals per recipe agree with the listed deals, and computing them changes nothing in the market.",
    "inputs configurations", "all ordered recipe trees, agent counts and markets in the bounds",
    TESTS + "they use a handful of trees; optimality is a comparison with every vector of deals per recipe.",
    TREE_ALL, [("children's traders are merged in order of their gain", "recipetree.py / recipetree_integer.py: combined_category_by_children, optimal_trade_GFT"),
               ("deals per path", "recipetree.py / recipetree_integer.py: optimal_trade_with_counters")],
    ["RecipeTree.optimal_trade, optimal_trade_GFT, optimal_trade_with_counters"], EXEC + ", against brute force over all vectors of deals per recipe", SMALL)
add("C12", "Outcomes of recipe-tree auctions account for their participants",
    "The outcome of a recipe-tree auction reports as number of deals the largest number that its participants can form, as gain from trade the best that the participants can gain, and as fewest and most potential deals those of the last categories of the recipes. Querying an outcome repeatedly gives the same answers and does not change it.",
    "inputs configurations histories", "all trees, agent counts, participants in the bounds, and all outcomes of auctions",
    TESTS + "they query outcomes of single auctions; the accounting has to hold for every set of participants.",
    "ascending_auction_recipetree_protocol.py ascending_auction_recipetree_integer_protocol.py " + TREE_ALL,
    [("outcome of a tree auction", "ascending_auction_recipetree_protocol.py / ascending_auction_recipetree_integer_protocol.py: TradeWithMultipleRecipes"),
     ("deals per subtree are min(own, sum of children)", "recipetree.py / recipetree_integer.py: num_of_deals_cached, num_of_possible_ps")],
    ["num_of_deals(), gain_from_trade(), optimal_trade(), min_num_of_deals(), max_num_of_deals() of the outcome"], EXEC, SMALL)
add("C13", "Recipe trees describe exactly their recipes and refuse malformed ones",
    "A recipe tree built from a nested list has exactly the root-to-leaf paths of the list as its recipes, each with the configured number of agents per category. The categories whose prices rise together contain exactly one category of each recipe, and at least one of them has a trader when the root has one. The number of children, the depth and the numbers of agents that the helpers for simulations compute fit the tree: on every path the numbers below the root add up to the one of the root. A malformed nested list is refused with a ValueError.",
    "inputs configurations", "all ordered trees and labellings, all agent counts and category sizes in the bounds",
    TESTS + "they print four or five trees; the cut condition has to hold for every tree and all sizes.",
    TREE_ALL, [("nested list to tree", "recipetree.py / recipetree_integer.py: RecipeNode, RecipeTree.__init__"), ("paths and recipes", "recipetree.py / recipetree_integer.py: paths_to_leaf, recipes"),
               ("largest categories form a cut", "recipetree.py / recipetree_integer.py: largest_categories")],
    ["RecipeTree.paths_to_leaf, recipes, largest_categories"], "exhaustive explicit-state enumeration of all trees, labellings, counts and sizes in the bounds, executed on the real code", SMALL)
add("C14", "Auctions and queries do not change markets or depend on history",
    "Running any auction, computing an optimum, printing or cloning a market leaves the market, the recipe and the tree description unchanged, and the result is the same whatever was run before in the same process, and whether or not the log is on. Outcomes that were handed out earlier stay as they are, and changing an outcome or a clone does not change the market.",
    "histories inputs", "all sequences of operations up to the depth bound on shared market objects",
    "Each test runs one operation on a fresh market; hidden shared state shows only in sequences of operations.",
    SINGLE_FILES + " mcafee_protocol.py " + TREE_FILES, [("auctions work on a clone of the market", "markets.py: Market.clone; ascending_auction_protocol.py, trade_reduction_protocol.py, ascending_auction_recipetree_protocol.py, ascending_auction_recipetree_integer_protocol.py"),
        ("module-level loggers", "all modules: logger")],
    ["markets, recipes, earlier outcomes and the result after every operation"],
    "explicit-state exploration of all operation sequences up to the depth bound on the real code, compared with the result in a fresh process", SMALL)
add("C15", "Outcomes depend on the traders' values only",
    "The outcome of every auction and optimal trade depends only on the values of the traders in each category. It does not depend on the order in which traders are listed, on the names of the categories, on whether equal values are integers, floats or numpy numbers, on whether the recipe or the agent counts are a list or a tuple, or on how the traders were added to the market.",
    "inputs histories", "all permutations of listings, name assignments, number types and ways of building a market, over all markets in the bounds",
    "The tests list traders in descending order under fixed names, as integers or floats.",
    "agents.py markets.py " + SINGLE_FILES, [("values are kept sorted", "agents.py: AgentCategory.__init__, append"), ("append of traders and PSs", "markets.py: append_trader, append_PS")],
    ["prices, participants, number of deals"], EXEC + " in every presentation", SMALL)
add("C16", "Recipe-tree auctions generalise the single-recipe ascending auction",
    "The recipe-tree auction and the integer recipe-tree auction with one agent per category give the same participants, prices and deals (a leftover of the initial prices in a category from which nobody trades is not compared), and leaving out the agent counts means one agent per category. On a tree with one root and one child both give the outcome of the ascending auction for the recipe of one agent each.",
    "inputs configurations", "all trees and markets in the bounds",
    "No test compares two of the auctions; the equivalence has to hold on every market.",
    SINGLE_FILES + " " + TREE_FILES, [("three implementations of one protocol", "ascending_auction_protocol.py, ascending_auction_recipetree_protocol.py, ascending_auction_recipetree_integer_protocol.py: budget_balanced_ascending_auction")],
    ["outcomes of two auctions on one market"], EXEC + ": two implementations are run on the same state and compared", SMALL)
add("C17", "Categories and markets behave as sorted lists of values",
    "After any sequence of additions and removals, a category holds exactly the values added and not removed, in descending order, and all its queries (size, highest, lowest, the highest few) agree with that list. A market does the same for all its categories, and operations on a clone and on the original do not affect each other.",
    "histories inputs", "all sequences of operations up to the depth bound, and every single operation from every multiset of values in the bounds",
    "The doctests of these classes make one call after another on one example.",
    "agents.py markets.py", [("sorted list of values", "agents.py: AgentCategory"), ("list of categories", "markets.py: Market")],
    ["all queries of AgentCategory and Market"], "explicit-state exploration of all operation sequences, executed on the real objects in lock-step with a reference model", SMALL)
add("C18", "A rising price vector stops exactly at its target or at balance",
    "Raising one price of a single-recipe price vector raises exactly that price, up to its target, unless the recipe's total price would exceed the given bound, in which case it stops where the total equals the bound. The status tells which of the two happened; a price that is set outright has the value given to it, also when that is lower. This holds for any recipe, any agent counts and any sequence of such steps.",
    "histories inputs configurations", "all sequences of increases up to the depth bound, all recipes and agent counts in the bounds",
    "The doctests raise two or three prices by fixed amounts.",
    "prices.py prices_integer.py", [("increase up to balance", "prices.py / prices_integer.py: AscendingPriceVector.increase_price_up_to_balance, increase_price_by_weight"), ("status", "prices.py / prices_integer.py: PriceStatus")],
    ["AscendingPriceVector prices, status and price-sum after every increase"], "explicit-state exploration of all operation sequences, executed on the real objects in lock-step with an exact rational reference model", SMALL)
add("C19", "Prices of several recipes rise together with equal sums",
    "The initial prices give all recipes the same total price, at most the given bound. Each joint increase of a set of categories with one category in each recipe keeps the totals of all recipes equal, changes no other price, never passes a target or the bound on the total, and stops exactly at the first of them that is reached.",
    "histories inputs configurations", "all trees, start values, cuts, targets and sequences of joint increases up to the depth bound",
    "The doctests make a few increases on three sets of recipes.",
    "prices.py prices_integer.py", [("joint increase", "prices.py / prices_integer.py: SimultaneousAscendingPriceVectors.increase_prices"), ("initial prices", "prices.py / prices_integer.py: calculate_initial_prices")],
    ["SimultaneousAscendingPriceVectors prices, price-sums and status after every increase"], "explicit-state exploration of all operation sequences, executed on the real objects", SMALL)
add("C20", "Single-price outcomes report the average over all random choices",
    "The outcome of a single-price auction reports the largest number of deals its participants can form, and as gain from trade exactly the average over all equally likely choices of the participants that trade. Without the auctioneer's share the payments are subtracted. An optimal or double-auction trade reports the sum over its deals.",
    "inputs", "all participants, recipes (zero entries included) and price vectors in the bounds; all lotteries",
    TESTS + "none enumerates the lotteries over which the average is taken.",
    "trade.py agents.py", [("expected gain", "trade.py: TradeWithSinglePrice.gain_from_trade"), ("number of deals", "trade.py: TradeWithSinglePrice.num_of_deals"), ("deals of an optimal trade", "trade.py: Trade, TradeWithMaterialBalance")],
    ["num_of_deals(), gain_from_trade() with and without auctioneer"], "exhaustive enumeration of all outcomes in the bounds and of all lotteries of each, in exact arithmetic, against the real code", SMALL)
add("C22", "Invalid requests are refused and leave no trace",
    "A recipe whose length or entries do not fit the market, a malformed tree, a procurement set of the wrong length, or a double auction for a recipe with other entries than 1 is refused with a ValueError by the functions that check their input. The market and all later results are as if the request had not been made.",
    "histories inputs", "all interleavings of invalid requests with valid ones in the bounds",
    "No test makes a valid request after an invalid one.",
    SINGLE_FILES + " mcafee_protocol.py " + TREE_FILES, [("checks of the recipe", "ascending_auction_protocol.py, trade_reduction_protocol.py, mcafee_protocol.py, markets.py"), ("checks of the tree", "recipetree.py / recipetree_integer.py: RecipeNode")],
    ["exception type; market and later results"], "explicit-state exploration of all histories that interleave invalid and valid requests, on the real code", SMALL)
add("C23", "The ascending auction follows its published protocol",
    "The outcome of the ascending auction is, for every recipe and market, the one of the published protocol: prices start below all values, the categories with most remaining deals rise one after another, each to the lowest remaining value, whose trader then leaves, until the total price is zero. The traders who remain are the participants. A bound on the deals of the optimal trade, which is computed for comparison only, does not change the outcome.",
    "inputs", "all markets and recipes (zero entries included) in the bounds",
    TESTS + "they fix the outcome of a few dozen markets.",
    "ascending_auction_protocol.py prices.py agents.py markets.py", [("the protocol", "ascending_auction_protocol.py: budget_balanced_ascending_auction")],
    ["prices, participants, number of deals"], "explicit-state reference model of the protocol in exact arithmetic (mc/clock.py); every run of the model in the bounds is replayed on the real code and compared",
    SMALL + "The reference model of the protocol in mc/clock.py is trusted.")
add("C24", "External-competition and double auctions follow their published protocols",
    "For every recipe and market, the external-competition auction (in both variants) and the double auction give the prices and participants of their published protocols: the last deal of the optimal trade is dropped if no outside competition covers it, prices come from the best replacement, and the double auction uses McAfee's rule.",
    "inputs", "all markets and recipes in the bounds",
    TESTS + "they fix the outcome of a few dozen markets.",
    "trade_reduction_protocol.py mcafee_protocol.py markets.py trade.py", [("external competition", "trade_reduction_protocol.py: budget_balanced_trade_reduction, calculate_prices_by_external_competition"), ("McAfee", "mcafee_protocol.py: mcafee_trade_reduction")],
    ["prices, participants, number of deals"], "explicit-state reference models of the protocols in exact arithmetic (mc/clock.py); every run of the models in the bounds is replayed on the real code and compared",
    SMALL + "The reference models of the protocols in mc/clock.py are trusted.")
add("C25", "The recipe-tree auctions follow their published protocol",
    "For every tree, agent counts and market, both recipe-tree auctions give the outcome of the published protocol: the categories of a largest cut rise together, in inverse proportion to their agent counts, each trader leaves when the category's price reaches the trader's value, and the auction ends when the common total price is zero.",
    "inputs configurations", "all trees, agent counts and markets in the bounds",
    TESTS + "they fix the outcome of a few dozen markets on a few trees.",
    TREE_FILES, [("the protocol", "ascending_auction_recipetree_protocol.py / ascending_auction_recipetree_integer_protocol.py: budget_balanced_ascending_auction"), ("joint increase", "prices.py / prices_integer.py: SimultaneousAscendingPriceVectors")],
    ["prices, participants, number of deals"], "explicit-state reference model of the simultaneous clocks in exact arithmetic (mc/clock.py); every run of the model in the bounds is replayed on the real code and compared",
    SMALL + "The reference model in mc/clock.py is trusted. Runs in which two events are closer than the rounding of the code's floating-point prices are counted and skipped.")
add("C26", "The unit of money and the zero point of values do not matter",
    "In the single-recipe auctions, measuring all values in another unit of money changes the prices by the same factor and nothing else. Shifting the values of each category so that the shifts cancel in every deal moves the prices by the same amounts and changes nothing else (except in the double auction, which tells buyers from sellers by sign). Adding a category outside the recipe changes nothing.",
    "inputs", "all markets and recipes in the bounds, all generating shifts and several units",
    "No test compares two runs on related markets.",
    SINGLE_FILES + " mcafee_protocol.py", [("bounds and sentinels for prices", "ascending_auction_protocol.py; agents.py: lowest_agent_value"), ("comparison with zero", "prices.py; trade_reduction_protocol.py; markets.py")],
    ["prices, participants, number of deals"], EXEC + " together with its images under the transformations", SMALL)
add("C27", "The printed outcome says what the outcome is",
    "The printed form of an outcome names for each category the number of traders who accept the price, how many of them are chosen at random when not all can trade, and the price. For trees it adds the deals of each group of recipes and the overall number of deals. It says that there is no trade exactly when there is none.",
    "inputs configurations", "all outcomes in the bounds, built directly and by every auction",
    TESTS + "they print a few dozen outcomes.",
    "trade.py " + TREE_ALL + " ascending_auction_recipetree_protocol.py ascending_auction_recipetree_integer_protocol.py", [("text of a single-price outcome", "trade.py: TradeWithSinglePrice.__str__"), ("text of a tree outcome", "recipetree.py / recipetree_integer.py: num_of_deals_explained")],
    ["str(outcome)"], EXEC, SMALL)
add("C28", "Auctions that run at the same time do not disturb each other",
    "Two auctions or optimum computations that run at the same time in two threads — on the same market and recipe tree, with different recipes or trees on the same market, or on two markets — each give the result they give alone, whatever the interleaving, and leave the markets unchanged.",
    "schedules", "all pairs of operations, all schedules with one preemption at any line, and with two on the smallest market; each schedule starts with a fresh import of the library",
    "No test uses threads; a disturbance shows only when a switch falls between particular lines.",
    SINGLE_FILES + " mcafee_protocol.py " + TREE_FILES, [("each auction works on its own clone and price vectors", "markets.py: clone; prices.py; prices_integer.py"), ("counters and caches in tree nodes", "recipetree.py / recipetree_integer.py")],
    ["both results and the market in every schedule"], "stateless exploration of thread schedules on the real code under a controlled scheduler with line granularity, exhaustive up to the preemption bound",
    "Every schedule within the preemption bound is executed at line granularity on the real code; nothing is sampled. Switches inside a line (between bytecodes) are outside the bound.")
DRAWS = ("Random draws and shuffles are not sampled: they are taken from an enumerated grid of choices, and every path of choices in the bounds is executed. "
         "Trusted: the optimum in mc/ref.py, and the auctions themselves, which are checked by the other properties. The external results table is replaced by one in memory. ")
add("C29", "Simulation tables report what the auctions did on the drawn markets",
    "In the simulation experiments, each row for a number of agents reports the mean number of deals and gains of the auction and of the optimal trade over exactly its iterations, and their ratios in percent (zero when the optimum is zero). The comparison of two auctions counts for each recipe which of them wins. Traders are drawn in the configured numbers from the configured value ranges.",
    "inputs configurations", "all combinations of draws from a grid in each value range, all small numbers of agents and iterations, all auctions, several recipes and trees",
    "The test suite does not run the experiments.",
    "experiment.py experiment_comparing_sbb.py experiment_ascending_auction_recipetree_random.py experiment_ascending_auction_recipetree_integer_random.py agents.py",
    [("sums over iterations, one row per number of agents", "experiment.py: experiment; experiment_comparing_sbb.py: experiment; experiment_ascending_auction_recipetree_random.py / experiment_ascending_auction_recipetree_integer_random.py: experiment"), ("draws", "agents.py: AgentCategory.uniformly_random")],
    ["rows of the results table"], "stateless enumeration of all random choices in the bounds; the real experiment is executed on every path and every cell is recomputed by a reference", DRAWS)
add("C30", "Stock experiment tables report what the auctions did on the prices",
    "In the stock experiments, each row reports for a stock, or as the average over all stocks and iterations, the number of deals and gains of each auction and of the optimal trade and their ratios in percent, for the market made of the first prices of each (shuffled) list for the requested number of deals. This holds when each list has enough prices for that number, or when a single number exceeds them and all prices are used.",
    "inputs configurations", "all combinations of prices from a grid, all orders of shuffling in the bounds, several recipes and trees, one and two stocks",
    "The test suite does not run the experiments.",
    "stock/experiment_stock.py stock/experiment_compare_iterations_autions.py stock/experiment_compare_iterations_autions_without_mcafee.py stock/experiment_compare_sbb_shufled_stock.py experiment_ascending_auction_recipetree_stock.py experiment_ascending_auction_recipetree_integer_stock.py",
    [("rows per stock or averages over stocks and iterations", "experiment functions of the files above")],
    ["rows of the results table"], "stateless enumeration of all random choices in the bounds; the real experiment is executed on every path and every cell is recomputed by a reference", DRAWS)
add("C31", "Market data turn into categories of traders as the recipe demands",
    "Stock files are split into categories so that each recipe gets buyers from the High and Close prices and sellers from the negative Open and Low prices, in proportion to the recipe; for trees the prices are dealt in proportion to the agent counts, with the sign and weight of each category and no price used twice. Random categories hold the requested number of rounded draws with the requested range, distribution and sign.",
    "inputs configurations", "all stock files over a grid of prices with up to three days, all recipes in the bounds, all orders of shuffling and all draws in the bounds",
    "The test suite neither reads stock files nor draws random categories.",
    "get_stocks_data.py agents.py", [("split of prices", "get_stocks_data.py: getPrices, get_prices_tree, getAllPricesShuffled"), ("random categories", "agents.py: uniformly_random, normalvariate_random, gammavariate_random, paretovariate_random")],
    ["lists of values per category"], "stateless enumeration of all inputs and random choices in the bounds on the real code", DRAWS)
add("C32", "A recipe tree answers from the present traders of its categories",
    "A recipe tree keeps no traders of its own: after any sequence of traders joining or leaving the categories, and of queries to this tree or to other trees over the same categories, every query - the optimal trade and its gain, the number of deals, the combined deals in descending order (the first j of which gain as much as any j deals can), the categories to raise and the explanation of the number of deals - is correct for the traders who are there now. Each listed deal consists of the right numbers of traders of the categories on one path, and no query changes the categories.",
    "inputs histories", "all recipe trees and agent counts in the bounds, all sequences of additions, removals and replacements of traders, interleaved with queries or not",
    TESTS + "a single one of them queries a tree again after its categories have changed, and only for one query.",
    "recipetree.py recipetree_integer.py agents.py",
    [("combination of the deals of children and parent", "recipetree.py / recipetree_integer.py: combined_values, combined_values_detailed, combined_values_detailed_with_counters"),
     ("number of deals and its explanation", "recipetree.py / recipetree_integer.py: num_of_deals, num_of_deals_explained"), ("categories to raise", "recipetree.py / recipetree_integer.py: largest_categories")],
    ["RecipeTree queries"], "explicit-state exploration of all sequences of changes of the categories up to a depth bound on the real objects, each query compared with brute force after every change",
    "Every history in the bounds is executed on the code of the working tree, once with queries after every change and once with queries at the end only. Trusted: the brute-force definitions in mc/ref.py. ",
    [("categories", "the shared lists of traders under the trees", "agents.py: AgentCategory.values")])
