NA = {
 "C32": "rounding error bounds for unbounded series of unbounded floats: no static argument in reach bounds them; the analysis reads floats as reals",
 "C33": "quantifies over the text produced by std formatting of computed numbers; inverting string formatting is outside what a dataflow summary decides",
 "C34": "a statistical statement about convergence over random histories; not decidable from the source",
}
TECH.update({"C20": "forward dataflow over rustc MIR (gated value numbering): finiteness of every leaf of the value summaries, and what their assertions depend on"})
_T = ("forward dataflow over rustc MIR: the trading loop is summarised as a transition system (gated value numbering); "
      "each clause is decided on the next-state terms of its inferred state variables")
TECH.update({c: _T for c in ("C01", "C02", "C03", "C04", "C05")})
TECH["C31"] = "type and effect facts from rustc: every unsafe impl of Send/Sync against the compiler's auto-trait judgement of its components, every static, raw pointer and unsafe call of the evaluation's call graph"
TECH["C29"] = "forward dataflow over rustc MIR (gated value numbering): tables and constructors against tables written from the names; the kinds a draw can yield read off its summary"
TECH["C14"] = "forward dataflow over rustc MIR (gated value numbering): the summary of the evolution loop and of the operators, including what they write through &mut arguments, must equal that of a reference definition; random draws are ordered opaque values"
TECH["C12"] = "effect analysis over the call graph built from rustc MIR: every body reachable from the optimisation is searched for values that are not functions of its arguments (randomness, clock, hash order, shared state, addresses); the seed is traced on the dataflow summaries of evolve and par_optimize"
TECH["C13"] = "forward dataflow over rustc MIR (gated value numbering): the fitness written by the parallel evaluation against a reference definition, parallel map and join as indexed sequences; effect analysis over the call graph of one evaluation for state shared between workers"
TECH["C25"] = "forward dataflow over rustc MIR (gated value numbering), async bodies as the calls they await: which upstream results decide each answer and in which order, read off the handler summaries and compared with reference definitions"
TECH["C26"] = "forward dataflow over rustc MIR (gated value numbering): every requested and stored series of the handler summaries as an indexed sequence, with the key it is stored and read under"
TECH["C27"] = "forward dataflow over rustc MIR (gated value numbering): the arguments of every simulation and statistics call in the handler summaries, compared across call sites"
TECH["C28"] = "forward dataflow over rustc MIR (gated value numbering): the reported generations in the handler summary against a reference definition"
TECH["C16"] = "forward dataflow over rustc MIR (gated value numbering) of the code the derive macros expand to: each operation summarised with its components' operations unknown, then read at every index below the length, for every pair of variants and every context"
TECH["C17"] = "forward dataflow over rustc MIR (gated value numbering): the condition under which each constructor returns, on the generated parameters as draws with their ranges and the exit conditions of the loops that draw again; bounds propagated linearly"
