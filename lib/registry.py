"""What decides each property: harness, build profile, budgets, bounds."""
REGISTRY = {}


def reg(ids, **kw):
    for i in ids.split():
        REGISTRY[i] = dict(kw)


reg("H01 H02 H03 H04", harness="caretaker", profile="asan", case_timeout={"quick": 60, "thorough": 1500}, libs=["-lpugixml"])
reg("A01 A02 A03 A04 A05", harness="history", profile={"quick": "fast", "thorough": "asan"},
    case_timeout={"quick": 120, "thorough": 1500})
reg("M01 M02 M03 M04 M05 M06", harness="mesh", profile={"quick": "fast", "thorough": "asan"}, case_timeout={"quick": 20, "thorough": 60})
reg("G01 G02 G03", harness="geometry", profile={"quick": "fast", "thorough": "asan"}, case_timeout=20)
reg("E01 E02 E03 E04", harness="edges", profile="fast", case_timeout=20)
reg("P01 P02 P03 P05 P06", harness="parser", profile={"quick": "fast", "thorough": "asan"}, case_timeout=20)
reg("P04", harness="parser", profile="asan", case_timeout=20)
reg("W01 W02 W03 W04 W05 W06 W07", harness="writer", profile={"quick": "fast", "thorough": "asan"}, case_timeout=20)
CLI = dict(flags=["-Dmain=oemsh_main", "-iquote", "$VERIF/lib/stubs", "-I$VERIF/lib/stubs", '-DOEMSH_VERSION="1.2.3-mc"'],
           sources=["@$REPO/src/main.cpp", "$REPO/src/ui/cli/cli.cpp", "$REPO/src/ui/cli/logger.cpp", "$REPO/src/ui/cli/progress.cpp"])
reg("C01 C02 C03", harness="cli", profile="fast", case_timeout=60, **CLI)
reg("D01", harness="diagonal", profile={"quick": "fast", "thorough": "asan"}, case_timeout=20)
reg("I01", harness="invariance", profile={"quick": "fast", "thorough": "asan"}, case_timeout=20)
reg("U01 U02 U03 U04 U05", harness="gui", profile="fast", qt=True, case_timeout=90)
reg("L01 L02", harness="logger", profile="asan", case_timeout=20, sources=["$REPO/src/ui/cli/logger.cpp"])
