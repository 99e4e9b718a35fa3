"""Which models are explored, and what is replayed on the code, for each property."""

import data
from lib import ROOTS

ASSUMPTIONS = [
    "the specification in spec/ states what OpenType and the documented behaviour of the crate require",
    "TLC evaluates it correctly, and the harness projects decoded values faithfully",
    "the crates typeface, truetype and postscript behave as their sources at the locked versions",
    "inputs that describe more data than fits in memory are not considered",
]

STRICT, DIRECTORIES, MARKS, CHECKSUMS, LANGUAGE, ALL = 0, 1, 2, 4, 8, 15

# The roots with large hand-made data in spec/Eval.tla.
LAYOUT = ["GlyphSubstitution", "GlyphPositioning"]
OWN = LAYOUT + ["GlyphDefinition", "FontVariations", "ColorPalettes"]


def numbered(prefix, *numbers):
    return [prefix + str(number) for number in numbers]


def fixtures(check, roots):
    """The tables of real fonts, with what they mean, or nothing when there is none."""
    given = [(root, table) for root, table, _ in data.tables() if root in roots]
    if not given:
        return None
    path = check.path("fixtures.json")
    data.write(path, given)
    return check.eval(path, title="tables of the fixtures")


def formats(roots, masks=(STRICT, ALL), k=1, more=()):
    """Instances of some structures, in all variations up to k deviations, mutations of them, large
    ones, and those in real fonts (also as parts of the tables in more)."""
    def run(check):
        check.build(*masks)
        cases = check.gen(roots, ["Emit"], k=k)
        check.sample(cases)
        check.conform(cases, masks)
        cases = check.gen(roots, ["EmitMutants"], k=1, scalars=1, mutants=30 if check.thorough else 6)
        check.conform(cases, masks)
        samples = 400 + 1600 // len(roots)
        cases = check.scatter(roots, ["Emit"], samples * (20 if check.thorough else 1))
        check.conform(cases, masks)
        cases = check.scatter(roots, ["EmitMutants"], samples // 4, mutants=20 if check.thorough else 2)
        check.conform(cases, masks)
        cases = check.gen(roots, ["Emit"], k=1, scalars=0, counts=3)
        check.conform(cases, masks)
        cases = check.eval(roots=list(roots) + list(more))
        check.conform(cases, masks)
        cases = fixtures(check, list(roots) + list(more))
        if cases:
            check.conform(cases, masks)
        if check.thorough:
            check.conform(cases, masks, profile="release") if cases else None
            cases = check.gen(roots, ["Emit"], k=k + 1, scalars=1)
            check.conform(cases, masks)
            check.conform(cases, masks, profile="release")
            cases = check.gen(roots, ["Emit"], k=1, scalars=7, counts=4)
            check.conform(cases, masks)
            for seed in range(4):
                path = check.path("damaged.json")
                count = data.write(path, [case for case in data.damaged(check.seed * 10 + seed, 4000)
                                          if case[0] in list(roots) + list(more)][:500])
                if count:
                    cases = check.eval(path, limit="Middling", title="damaged tables of the fixtures")
                    check.conform(cases, masks)
    return run


# ----------------------------------------------------------------------
# The container.

def opening(check):
    check.build(STRICT, CHECKSUMS)
    cases = check.font(["EmitSignatures"], k=0)
    check.conform(cases, effort=0)
    cases = check.font(["EmitFont"], k=1)
    check.sample(cases)
    check.conform(cases, (STRICT, CHECKSUMS))
    check.trace(STRICT, 300 if check.thorough else 60, 20)
    if check.thorough:
        cases = check.font(["EmitFont"], k=2)
        check.conform(cases, (STRICT, CHECKSUMS))
        for seed in range(5):
            check.trace(STRICT, 300, 10, seed=check.seed * 100 + seed)


def finding(check):
    check.build(STRICT, CHECKSUMS)
    check.font(["Coherence"], k=1)
    cases = check.font(["EmitFont"], k=1)
    check.sample(cases)
    check.conform(cases, (STRICT, CHECKSUMS))
    check.trace(STRICT, 200 if check.thorough else 40, 200)
    check.trace(CHECKSUMS, 0, 200)
    if check.thorough:
        check.font(["Coherence"], k=2)
        cases = check.font(["EmitFont"], k=2)
        check.conform(cases, (STRICT, CHECKSUMS))
        check.conform(cases, (STRICT, CHECKSUMS), profile="release")


def verifying(check):
    masks = (STRICT, CHECKSUMS, ALL - CHECKSUMS, ALL)
    check.build(*masks)
    check.font(["Sensitivity"], k=1)
    cases = check.font(["EmitFont"], k=1)
    check.sample(cases)
    check.conform(cases, masks)
    cases = check.font(["EmitSums"], k=0)
    check.conform(cases, masks)
    check.trace(STRICT, 400 if check.thorough else 80, 60)
    if check.thorough:
        cases = check.font(["EmitFont"], k=2)
        check.conform(cases, masks)
        check.conform(cases, masks, profile="release")
        for seed in range(5):
            check.trace(STRICT, 300, 60, seed=check.seed * 100 + seed)


def repeating(check):
    check.build(STRICT, CHECKSUMS)
    check.font(["Agreement"], k=0, depth=2, next="Next")
    check.font(["Agreement"], k=1, depth=1, next="Micro", bases="AC")
    cases = check.font(["EmitFont"], k=1)
    check.sample(cases)
    check.conform(cases, (STRICT, CHECKSUMS))
    check.trace(STRICT, 200 if check.thorough else 30, 500)
    check.trace(CHECKSUMS, 0, 1000)
    if check.thorough:
        check.font(["Agreement"], k=1, depth=2, next="Next")
        check.font(["Agreement"], k=0, depth=2, next="Micro")
        check.font(["Agreement"], k=1, depth=1, next="Micro")
        cases = check.font(["EmitFont"], k=2)
        check.conform(cases, (STRICT, CHECKSUMS))
        for seed in range(5):
            check.trace(STRICT, 100, 1000, seed=check.seed * 100 + seed)


# ----------------------------------------------------------------------
# Across all structures.

def delivering(check):
    check.build(STRICT)
    check.stream("Few", 1, spec="Spec", properties=["Ends"], parts=4, title="it ends")
    schedules = check.stream("Many" if check.thorough else "Few", 2 if not check.thorough else 1,
                             ["BigStepAgrees", "FaultSurfaced", "Complete", "EmitSchedule"],
                             title="schedules")
    check.sample(schedules)
    cases = check.gen(ROOTS, ["Emit"], k=1)
    check.sample(cases)
    check.conform(cases, how="schedules", schedules=schedules, effort=40 if check.thorough else 5)
    check.conform(cases, how="streams", effort=4 if check.thorough else 1)
    cases = check.scatter(ROOTS, ["Emit"], 300 if check.thorough else 25)
    check.conform(cases, how="schedules", schedules=schedules, effort=40 if check.thorough else 5)
    check.conform(cases, how="streams", effort=4 if check.thorough else 1)
    font = check.font(["EmitFont"], k=1)
    check.conform(font, (STRICT, CHECKSUMS), how="streams", effort=4 if check.thorough else 1)
    real = fixtures(check, ROOTS)
    check.conform(real, how="schedules", schedules=schedules, effort=10)
    check.conform(real, how="streams")
    if check.thorough:
        check.conform(cases, (DIRECTORIES | MARKS,), how="streams", effort=2)
        cases = check.gen(ROOTS, ["Emit"], k=2, scalars=1)
        check.conform(cases, how="schedules", schedules=schedules, effort=10)
        check.conform(real, how="streams", effort=20)


# The most memory that the code may ask for at once while it decodes (small) data, in MiB.
MEMORY = 1024


def surviving(check):
    masks = (STRICT, DIRECTORIES | MARKS | CHECKSUMS | LANGUAGE)
    check.build(*masks)
    check.build(STRICT, profile="release")
    cases = check.gen(ROOTS, ["EmitMutants"], k=1, scalars=1, mutants=20 if check.thorough else 3)
    check.sample(cases)
    check.conform(cases, masks, memory=MEMORY)
    check.conform(cases, profile="release", memory=MEMORY)
    cases = check.scatter(ROOTS, ["EmitMutants"], 300 if check.thorough else 25, mutants=20 if check.thorough else 4)
    check.conform(cases, masks, memory=MEMORY)
    check.conform(cases, profile="release", memory=MEMORY)
    cases = check.eval(roots=ROOTS)
    check.conform(cases, masks, memory=MEMORY)
    path = check.path("noise.json")
    data.write(path, data.noise(check.seed, 100000 if check.thorough else 8000, ROOTS))
    cases = check.eval(path, limit="Middling", title="random words")
    check.conform(cases, masks, memory=MEMORY)
    path = check.path("damaged.json")
    data.write(path, data.damaged(check.seed, 5000 if check.thorough else 500))
    cases = check.eval(path, limit="Middling", title="damaged tables of the fixtures")
    check.conform(cases, masks, memory=MEMORY)
    cases = check.font(["EmitFont"], k=2 if check.thorough else 1)
    check.conform(cases, (STRICT, CHECKSUMS | DIRECTORIES | MARKS | LANGUAGE))
    check.conform(cases, profile="release", memory=MEMORY)
    cases = check.registry(["EmitTag"], k=0)
    check.conform(cases)
    if check.thorough:
        cases = check.gen(ROOTS, ["EmitMutants"], k=0, scalars=0, mutants=2000)
        check.conform(cases, masks, memory=MEMORY)
        cases = check.gen(ROOTS, ["EmitMutants"], k=2, scalars=0, mutants=1)
        check.conform(cases, masks, memory=MEMORY)
        cases = check.gen(ROOTS, ["Emit"], k=1, scalars=7, counts=4)
        check.conform(cases, masks, memory=MEMORY)


def truncating(check):
    check.build(STRICT)
    check.gen(ROOTS, ["Truncation"], k=1 if check.thorough else 0, scalars=0, counts=0)
    cases = check.gen(ROOTS, ["EmitCuts"], k=0, scalars=0)
    check.sample(cases)
    check.conform(cases)
    cases = check.gen(ROOTS, ["EmitCuts"], k=1, scalars=0, thin=4 if check.thorough else 64)
    check.conform(cases)
    cases = check.gen(ROOTS, ["Emit"], k=1)
    check.conform(cases, how="prefixes")
    cases = check.scatter(ROOTS, ["Emit"], 1000 if check.thorough else 60)
    check.conform(cases, how="prefixes")
    cases = fixtures(check, ROOTS)
    check.conform(cases, how="prefixes", effort=0 if check.thorough else 400)
    cases = check.eval(roots=ROOTS)
    check.conform(cases, how="prefixes", effort=5000 if check.thorough else 200)
    if check.thorough:
        cases = check.gen(ROOTS, ["Emit"], k=2, scalars=0)
        check.conform(cases, how="prefixes")
        cases = check.gen(ROOTS, ["EmitMutants"], k=1, scalars=1, mutants=5)
        check.conform(cases, how="prefixes")


def embedding(check):
    check.build(STRICT)
    check.gen(ROOTS, ["Relocation"], k=1 if check.thorough else 0, scalars=0)
    cases = check.gen(ROOTS, ["Emit"], k=1)
    check.sample(cases)
    check.conform(cases, how="places")
    cases = check.scatter(ROOTS, ["Emit"], 1000 if check.thorough else 80)
    check.conform(cases, how="places")
    cases = fixtures(check, ROOTS)
    check.conform(cases, how="places")
    cases = check.eval(roots=ROOTS)
    check.conform(cases, how="places")
    if check.thorough:
        cases = check.gen(ROOTS, ["Emit"], k=2, scalars=1)
        check.conform(cases, how="places")
        cases = check.gen(ROOTS, ["EmitMutants"], k=1, scalars=1, mutants=10)
        check.conform(cases, how="places")
        check.conform(cases, how="places", profile="release")


def discriminating(check):
    check.build(STRICT)
    check.gen(ROOTS, ["Discrimination"], k=1 if check.thorough else 0, scalars=0)
    cases = check.gen(ROOTS, ["EmitSites"], k=0, scalars=0)
    check.sample(cases)
    check.conform(cases, effort=0)
    cases = check.gen(ROOTS, ["EmitSites"], k=1, scalars=0)
    check.conform(cases, effort=0 if check.thorough else 4)
    cases = check.scatter(ROOTS, ["EmitSites"], 400 if check.thorough else 40)
    check.conform(cases, effort=50 if check.thorough else 3)
    if check.thorough:
        check.conform(cases, (DIRECTORIES | MARKS,), effort=20)
        cases = check.gen(ROOTS, ["EmitSites"], k=2, scalars=0)
        check.conform(cases, effort=1)


def tolerating(check):
    masks = tuple(range(16))
    check.build(*masks)
    check.gen(["GlyphSubstitution", "GlyphPositioning", "PosLookups"] + numbered("Pos", 4, 5, 6),
              ["Isolation"], k=1, scalars=0)
    cases = check.gen(ROOTS, ["Emit"], k=1, scalars=1)
    check.sample(cases)
    check.conform(cases, masks)
    cases = check.scatter(ROOTS, ["Emit"], 1000 if check.thorough else 60)
    check.conform(cases, masks)
    cases = check.font(["EmitFont"], k=1)
    check.conform(cases, masks)
    cases = check.registry(["EmitTag"], k=0)
    check.conform(cases, masks)
    cases = fixtures(check, OWN)
    check.conform(cases, masks)
    if check.thorough:
        check.gen(ROOTS, ["Isolation"], k=2, scalars=0)
        cases = check.gen(LAYOUT + ["PosLookups"] + numbered("Pos", 4, 5, 6), ["Emit"], k=2)
        check.conform(cases, masks)
        cases = check.gen(ROOTS, ["EmitMutants"], k=1, scalars=1, mutants=4)
        check.conform(cases, masks)
        cases = check.font(["EmitFont"], k=2)
        check.conform(cases, masks)
        cases = check.registry(["EmitTag"], k=1)
        check.conform(cases, masks)


# ----------------------------------------------------------------------
# The registries.

def registries(names):
    def run(check):
        masks = (STRICT, LANGUAGE, ALL - LANGUAGE, ALL)
        check.build(*masks)
        check.registry(["RoundTrip", "NeverUnknown", "Distinct"], k=0)
        cases = check.registry(["EmitTag"], k=2 if check.thorough else 1)
        check.sample(cases)
        check.conform(cases, masks)
        cases = check.registry(["EmitRegistry"], k=0)
        wanted = check.path("sweep")
        with open(cases) as file, open(wanted, "w") as output:
            output.writelines(line for line in file if any('"%s"' % name in line for name in names))
        check.conform(wanted, masks, effort=100)
        check.conform(wanted, masks[:2] if check.thorough else masks[:1], profile="release", effort=0, patience=3000)
        if check.thorough:
            check.registry(["RoundTrip", "NeverUnknown", "Distinct"], k=1)
    return run


CHECKS = {
    "C01": opening,
    "C02": finding,
    "C03": verifying,
    "C04": repeating,
    "C05": delivering,
    "C06": surviving,
    "C07": truncating,
    "C08": embedding,
    "C09": formats(LAYOUT, (STRICT, DIRECTORIES, ALL - DIRECTORIES, ALL)),
    "C10": formats(["Scripts"], k=2, more=LAYOUT),
    "C11": formats(["Features"], k=2, more=LAYOUT),
    "C12": formats(["SubLookups", "PosLookups"], more=LAYOUT),
    "C13": formats(["Coverage", "Class"], k=2, more=["GlyphDefinition"]),
    "C14": formats(["Correction"], k=2),
    "C15": formats(["Context", "ChainedContext"] + numbered("Sub", 5, 6) + numbered("Pos", 7, 8)),
    "C16": formats(numbered("Sub", 1, 2, 3, 4, 7, 8), more=["GlyphSubstitution"]),
    "C17": formats(numbered("Pos", 1, 2), more=["GlyphPositioning"]),
    "C18": formats(numbered("Pos", 3, 4, 5, 6), (STRICT, MARKS, ALL - MARKS, ALL), more=["GlyphPositioning"]),
    "C19": formats(["GlyphDefinition"]),
    "C20": formats(["Store"], k=2, more=["GlyphDefinition"]),
    "C21": formats(["FontVariations"], k=2),
    "C22": formats(["ColorPalettes"], k=2),
    "C23": registries(["scripts", "features"]),
    "C24": registries(["languages"]),
    "C25": discriminating,
    "C26": tolerating,
}
