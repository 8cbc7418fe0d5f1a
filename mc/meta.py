META = {
    "T01": "record sets (cell presence, values, duplicates, orders, labels)",
    "T02": "loss histories x representations x column names x record orders",
    "T03": "conversion sequences over enumerated triangles",
    "T04": "operation pairs (caller's objects and earlier results compared after each) and argument kinds",
    "T05": "triangle shapes, cell presence patterns, labels and view orders",
    "T06": "link ratio assignments, shapes and averaging windows",
    "T07": "exclusion sets and exclude/include sequences",
    "T08": "link ratio assignments, selections, tails and shapes",
    "T09": "factor vectors, containers, tails and lengths",
    "T10": "order-preserving relabellings, scales and link ratio assignments (pairs of runs compared)",
    "T11": "link ratio assignments x alpha x dist x q",
    "T12": "link ratio assignments x alpha x call histories",
    "T13": "link ratio assignments x alpha x dist x quantile lists",
    "T14": "joint rank patterns of link ratios, answers of the generator, p",
    "T15": "link ratio assignments, negative increments and labels",
    "T16": "answers of the (scripted) random number generator",
    "T17": "simulation settings (sims, seeds, modes, quantiles, interpolation) x triangles",
    "T18": "sequences of runs, re-seedings and draws, with generator states",
    "T19": "operation sequences on one and on two triangles, compared with fresh triangles",
    "T20": "quantile lists, containers, orders, interpolation and bounds",
    "T21": "datasets, load sequences with edits in between, and synthetic dataset files",
    "T22": "synthetic databases x filter combinations",
    "T23": "exhibits x shapes x labels x options, and pairs of exhibits",
    "T24": "invalid calls x following operations, and spellings",
    "T25": "cell values, table shapes, labels and display options",
    "T26": "call words on estimator objects",
    "T27": "crash points (an interrupt at every executed line of every call, with the states left behind)",
    "T28": "settings and pairs of settings x operations",
    "T29": "thread schedules up to two preemptions under a controlled scheduler",
    "T30": "inherited operations, and store-and-restore histories",
    "T31": "column types x layouts x representations of the data, and row and column orders of tables",
    "T32": "edits in place of returned objects x calls before x calls after",
}
