"""What MANIFEST.json claims: property -> (technique, note)."""
D = "property-based testing: "
CLAIMS = {
    "C01": (D + "generated models, differential against an independent reference solver", "All states and grid points of every generated model are compared at 1e-8; models up to 8 periods, stretched ones up to 55 periods, 11 types, 24 grid points."),
    "C02": (D + "generated panels, invariants and re-computation of utilities from recovered wage draws", "The wage draw is the observed wage, or recovered by inverting the full-time utility."),
    "C03": (D + "generated panels, differential against the solved table with reference interpolation", "Grids are even or uneven, up to 24 points, with or without the ends of the unit interval."),
    "C04": (D + "generated panels, invariants over rows and columns", "Entry periods range up to and beyond the horizon."),
    "C05": (D + "generated panels (operation histories), transition invariant against the reference law of motion", "Two known findings, identified by how the stock arises."),
    "C06": (D + "generated panels under certain and random tables, transition support and frequency oracle", "Frequencies by exact binomial tests at 1e-10, overall and within groups."),
    "C07": (D + "generated deterministic family histories, relation between the simulated path and the solved continuation value", "One known finding: birth row."),
    "C08": (D + "generated initial distributions, support and frequency oracle, exact entry state", "One known finding: late entrants."),
    "C09": (D + "generated incomes around and between thresholds, differential against the integral of the marginal rate plus shape relations", "Scalar and vectorised implementation; thresholds +- a few units in the last place."),
    "C10": (D + "generated households, differential plus metamorphic relations (symmetry, monotonicity, filing)", "Three implementations are compared."),
    "C11": (D + "generated households under generated rules of both regimes, differential against the benefit rules", "Includes households exactly at the income limit."),
    "C12": (D + "generated panels, exact wage residuals and statistical oracle on recovered draws", "Moment, normality and independence tests at 7 standard errors on 1500 agents."),
    "C13": (D + "metamorphic: biased solution against unbiased solution of the unit-increment model; paired panels", ""),
    "C14": (D + "generated operation sequences (stateful) against a memo of earlier results and fresh simulations", "Up to 10 operations per sequence; one order of the same inputs in a clean process; reused files and objects."),
    "C15": (D + "metamorphic over input forms and permutations; differential label binding with up to 13 types", ""),
    "C16": (D + "fault injection into generated valid inputs (removed and unsupported entries), rejection oracle", "One to three faults per input."),
    "C17": (D + "generated state-space dimensions, exhaustive enumeration of states, choices and outcomes against the combinatorial model", ""),
    "C18": (D + "generated draw counts and seeds, exact Gaussian moments and distribution tests", "Up to 150 nodes, 30000 draws, 80 periods."),
    "C19": (D + "generated grids, values and query points, algebraic relations", ""),
    "C20": (D + "generated models, every state against the reference functions", ""),
    "C21": (D + "metamorphic: paired solutions that differ in one group or in past periods", ""),
    "C22": (D + "metamorphic: comparative statics of paired solutions", "Wages, benefits and experience under the newer regime only (the older one has an income cut-off)."),
    "C23": (D + "metamorphic: paired models that differ in an irrelevant policy", ""),
    "C24": (D + "differential: both output formats of generated panels", "Includes 40000 agents and horizons above 127."),
    "C25": (D + "generated tables, round trip through the readers", ""),
    "C26": (D + "generated models with reachable-share grids, realised against expected value (exact and on average)", "Certain family events are constant over time, see C07."),
    "C27": (D + "generated amounts, differential and scaling relations", ""),
    "C28": (D + "generated models, differential between the single- and double-precision modes of the same code", "Cases whose budgets are ill-conditioned in single precision are skipped and counted."),
    "C29": (D + "generated models, differential between the routes to a panel", ""),
}
NOT_APPLICABLE = {}
