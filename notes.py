TECH = {}
DEFAULT_NOTE = ("Seeded search: many short simulated histories on the real code, every answer compared with an independent reference; "
                "a clean batch is evidence, not proof. Trusts the reference model, the compiler and the allocator seam.")
NOTE = {}
NA = {
    "C19": "There is no GPU, CUDA toolchain or driver in the sandbox, so the backend cannot be built, let alone put under a simulator.",
}
HOOKS = {"guard": "COOLDIFF_SIM_HOOKS", "enable": "compile with -DCOOLDIFF_SIM_HOOKS (engines nnet and tnnet only): the pinned GPU memory strategy, "
         "which needs CUDA, is served by the CPU memory strategy", "source_commits": ["72edddd"]}
