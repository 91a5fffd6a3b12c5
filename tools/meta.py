#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  Only properties with a module mc/props/cNN.py are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TESTS = "The doctests and unit tests run about a hundred hand-chosen markets; "

def add(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe)},
              "_technique": technique, "_note": note})

EXEC = "exhaustive explicit-state enumeration of all markets in the bounds, executed on the real code"
SMALL = ("Every market in the bounds is executed on the code of the working tree; nothing is sampled. Trusted: the reference definitions in "
         "mc/ref.py and the small-scope hypothesis outside the bounds (values are drawn from small grids chosen to contain ties, gaps, zeros, both signs and fractions). ")
SINGLE_FILES = "ascending_auction_protocol.py trade_reduction_protocol.py prices.py trade.py markets.py agents.py"
TREE_FILES = "ascending_auction_recipetree_protocol.py ascending_auction_recipetree_integer_protocol.py prices.py prices_integer.py recipetree.py recipetree_integer.py"

add("C01", "Single-recipe auctions are strongly budget balanced",
    "In the ascending auction and in both variants of the external-competition auction, whenever at least one deal is made, the prices announced for the categories, each multiplied by its number in the recipe, sum to exactly zero. No money is left with or taken from the auctioneer, for any recipe and any values, and whatever bound is set for the optimal trade that the ascending auction computes for comparison.",
    "inputs", "all markets (any number of traders per category, values of any sign, ties included) and all integral recipes with a positive entry in every category",
    TESTS + "the balance must hold for every combination of values, sizes and recipe, in particular when prices stop at ties or at a category that runs empty.",
    SINGLE_FILES, [("price-sum stays at or below zero and stops exactly at zero", "prices.py: AscendingPriceVector.increase_price_up_to_balance"),
                   ("price of each category from the best containing PS of the others", "trade_reduction_protocol.py: calculate_prices_by_external_competition"),
                   ("categories are raised in turn until balance", "ascending_auction_protocol.py: budget_balanced_ascending_auction")],
    ["TradeWithSinglePrice.prices", "TradeWithSinglePrice.num_of_deals()"], EXEC, SMALL)
add("C02", "Recipe-tree auctions are strongly budget balanced on every recipe",
    "In both recipe-tree auctions, whenever at least one deal is made, the prices of the categories on every root-to-leaf recipe, each multiplied by the number of its agents in one deal, sum to zero. This holds for every tree, every number of agents per category and every assignment of values.",
    "inputs configurations", "all ordered recipe trees, all positive agent counts, all markets",
    TESTS + "fewer than twenty use trees and nearly all of those one tree; balance has to survive every order in which categories run empty and every tie between simultaneous price rises.",
    TREE_FILES, [("simultaneous price rises keep all price-sums equal", "prices.py / prices_integer.py: SimultaneousAscendingPriceVectors.increase_prices"),
                 ("initial price below all values with equal sums", "prices_integer.py: calculate_initial_prices"),
                 ("the categories to raise form a cut of the tree", "recipetree.py / recipetree_integer.py: largest_categories")],
    ["TradeWithMultipleRecipes.prices"], EXEC, SMALL + "Prices are compared with tolerance 1e-5, because the code computes them in floating point.")
add("C03", "The double auction never runs a deficit and reports its surplus correctly",
    "In the double auction for one buyer and one seller, with and without the price heuristic, the buyer's price is never below the amount the seller receives, so that the auctioneer never pays money in. The surplus that the outcome reports is exactly the sum of the payments in its deals.",
    "inputs", "all markets of buyers and sellers in either order, with ties, zeros and fractional values",
    TESTS + "five of them use this auction, each with a hand-chosen surplus.",
    "mcafee_protocol.py trade.py", [("common price between the first excluded pair, else the values of the reduced pair", "mcafee_protocol.py: mcafee_trade_reduction")],
    ["trade.prices of mcafee_trade_reduction"], EXEC, SMALL)
add("C04", "No trader who trades loses, and every auction ends with a result",
    "In every auction, each trader taking part in a deal has a value at least as high as the price announced for the trader's category, so nobody who reports the true value ever loses by taking part. Every auction ends with an outcome for every valid market, including empty categories, ties and values of any sign.",
    "inputs configurations", "all auctions, all markets, all recipes and recipe trees in the bounds",
    TESTS + "rationality and termination have to hold for every participant of every market, and the price loops end only because of relations between target prices and sizes that no finite set of samples fixes.",
    SINGLE_FILES + " mcafee_protocol.py " + TREE_FILES,
    [("traders at the price leave before the price rises above them", "agents.py: remove_lowest_agent; prices.py: increase_prices"),
     ("participants are those whose value reaches the price", "trade_reduction_protocol.py: calculate_trading_agents")],
    ["participants and prices of every outcome"], EXEC, SMALL + "An execution that takes more than 20 CPU seconds or raises counts as a violation.")
add("C05", "No trader of a single-recipe auction gains by misreporting",
    "In the ascending auction, the external-competition auctions and the double auction, no single trader can raise the expected utility over the random choice of participants by reporting a value other than the true one, whatever the other traders report. Reporting truthfully is a dominant strategy.",
    "inputs histories", "all markets, every trader in them, every alternative report",
    "No test compares two runs that differ in one report; the property quantifies over pairs of executions.",
    SINGLE_FILES + " mcafee_protocol.py",
    [("prices depend on the values of traders who do not trade", "trade_reduction_protocol.py: calculate_prices_by_external_competition; ascending_auction_protocol.py: budget_balanced_ascending_auction"),
     ("lottery among all traders who accept the price", "trade_reduction_protocol.py: calculate_trading_agents"),
     ("value of the reduced pair sets the prices", "mcafee_protocol.py: mcafee_trade_reduction")],
    ["prices, participants and number of deals of two outcomes"],
    "explicit-state exploration of the graph of report profiles: every edge (one trader changes one report) is checked in both directions",
    SMALL + "The expected utility assumes the uniform lottery that the outcome performs (checked separately). Misreports range over the grid of the category.")
add("C06", "In recipe-tree auctions a report decides only whether its trader takes part",
    "In both recipe-tree auctions, two reports with which a trader surely takes part lead to the same prices, the same number of deals and the same number of participants: nobody can influence the own price or the others. A trader who is left out with the true value gets in by another report only at a price at least as high as that value, so that no lie is ever profitable.",
    "inputs histories", "all trees and agent counts in the bounds, all markets, every trader, every pair of reports",
    "No test compares two runs that differ in one report.",
    TREE_FILES, [("a price stops at the lowest remaining value, never at a higher one", "ascending_auction_recipetree_protocol.py: budget_balanced_ascending_auction; agents.py: lowest_agent_value"),
                 ("the trader at the price leaves", "agents.py: remove_lowest_agent")],
    ["prices and participants of two outcomes"],
    "explicit-state exploration of the graph of report profiles: every edge (one trader changes one report) is checked in both directions",
    SMALL)
add("C07", "Single-recipe auctions make at least all but one of the optimal deals",
    "Each single-recipe auction makes at least k-1 and at most k deals, where k is the number of deals of a welfare-optimal trade, and its gain from trade is at least (1-1/k) of the optimum and never above it. This holds for all markets, all integral recipes, and the double auction.",
    "inputs", "all markets and integral recipes in the bounds",
    TESTS + "the bound is an asymptotic guarantee over all values, tight only for particular combinations of values.",
    SINGLE_FILES + " mcafee_protocol.py", [("only the last PS of the optimal trade may be lost", "trade_reduction_protocol.py: budget_balanced_trade_reduction"),
                   ("the ascent stops when one PS at most has left", "ascending_auction_protocol.py: budget_balanced_ascending_auction")],
    ["num_of_deals()", "gain_from_trade()"], EXEC + ", against the brute-force optimum", SMALL)
add("C08", "Recipe-tree auctions lose at most one deal per recipe",
    "Both recipe-tree auctions make at most k and at least k-L deals, where k is the number of deals of the largest welfare-optimal trade and L the number of recipes in the tree, and their gain from trade never exceeds the optimum. With one agent per category in each recipe and no two traders tied, the gain from trade is at least (1-L/k) of the optimum.",
    "inputs configurations", "all trees, agent counts and markets in the bounds, with ties and (for the last sentence) in generic position",
    TESTS + "none computes the optimum over all trees, and the bound depends on which recipes lose a deal in which order.",
    TREE_FILES, [("traders leave one at a time and only from categories whose price rises", "ascending_auction_recipetree_protocol.py / ascending_auction_recipetree_integer_protocol.py: budget_balanced_ascending_auction"),
                 ("number of deals per recipe", "recipetree.py / recipetree_integer.py: num_of_deals")],
    ["num_of_deals()", "gain_from_trade()"], EXEC + ", against the brute-force optimum over all vectors of deals per recipe", SMALL)
add("C09", "Outcomes are feasible and announce the best traders of the market",
    "When an auction makes deals, the participants it announces are traders of the market and the highest-valued ones of their category (equal traders count for each other), and the announced number of deals is exactly the largest number for which the participants suffice. The outcome lists the categories of the market in their order under their names.",
    "inputs configurations", "all auctions, all markets, all recipes and trees in the bounds",
    TESTS + "they compare printed outcomes of single markets; feasibility has to hold for all.",
    SINGLE_FILES + " mcafee_protocol.py " + TREE_FILES, [("traders leave from the bottom of a sorted list", "agents.py: AgentCategory"), ("outcome objects", "trade.py: TradeWithSinglePrice, TradeWithMultipleRecipes")],
    ["trade.categories", "trade.prices", "num_of_deals()"], EXEC, SMALL)

exec(open(os.path.join(V, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_more.py")) else None

checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        if os.path.exists(os.path.join(V, "mc", "props", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                           "technique": p["_technique"], "level": "model_checking", "level_note": p["_note"].strip()})
        else:
            na.append({"property": p["id"], "reason": p.get("_na", "no check built")})
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import importlib
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(json.load(open(V + "/MANIFEST.json")), s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
    print("valid", len(checks), "checks")
except ImportError:
    print("written (not validated)")
