"""Running TLC on the specification and the conformance harness on its output."""

import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = ":".join("/opt/veriftools/tla/" + name
                for name in ("tla2tools.jar", "CommunityModules-deps.jar"))
CORES = os.cpu_count() or 4
FIXTURES = "/repo/tests/fixtures"

ROOTS = ["Coverage", "Class", "Correction", "Context", "ChainedContext", "Scripts", "Features",
         "SubLookups", "PosLookups", "GlyphDefinition", "Store", "FontVariations", "ColorPalettes",
         "GlyphSubstitution", "GlyphPositioning"] \
    + ["Sub%d" % i for i in range(1, 9)] + ["Pos%d" % i for i in range(1, 10)]

FEATURES = ["directories", "marks", "checksums", "language"]


class Broken(Exception):
    """The check itself does not work (as opposed to a violation)."""


def say(*words):
    print(*words, flush=True)


class Check:
    """One run of one check: what it has covered, and what it has found."""

    def __init__(self, property, tier, seed):
        self.property = property
        self.tier = tier
        self.seed = seed
        self.started = time.time()
        self.work = os.path.join(VERIF, "work", property)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replay = os.path.join(VERIF, "replay", property + ".cases")
        os.makedirs(os.path.dirname(self.replay), exist_ok=True)
        if os.path.exists(self.replay):
            os.remove(self.replay)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.jobs = []
        self.violations = 0
        self.count = 0
        self.builds = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.work, name)

    # ------------------------------------------------------------------
    # TLC.

    def tlc(self, module, constants, invariants=(), parts=CORES, init="Init", next="Next",
            spec=None, properties=(), limit=3000, title="", constraint=None,
            memory=None, deadlock=False, judge=False, thin=1):
        """Run TLC, in as many parts as asked for, and return the lines that it has written.

        With parts > 1 the module has the constants Part and Parts, and with OutFile in the
        constants each part has its own output file. Thinning leaves out all but one in so many
        of the parts.
        """
        self.count += 1
        name = "%s-%d" % (module, self.count)
        started = time.time()
        memory = memory or ("%dm" % max(1500, 20000 // parts))

        def run(part):
            base = self.path("%s-%d" % (name, part))
            values = dict(constants)
            if "OutFile" in values:
                values["OutFile"] = '"%s.out"' % base
            if "Part" in values:
                values["Part"], values["Parts"] = part * thin + self.seed % thin, parts * thin
            lines = ["SPECIFICATION " + spec] if spec else ["INIT " + init, "NEXT " + next]
            lines.append("CONSTANTS")
            lines += ["  %s %s" % (k, v if str(v).startswith("<-") else "= %s" % v) for k, v in values.items()]
            lines += ["INVARIANT " + item for item in invariants]
            lines += ["PROPERTY " + item for item in properties]
            if constraint:
                lines.append("CONSTRAINT " + constraint)
            lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
            with open(base + ".cfg", "w") as file:
                file.write("\n".join(lines) + "\n")
            command = ["java", "-Djava.io.tmpdir=" + self.work, "-Xss64m", "-Xmx" + memory, "-XX:+UseSerialGC",
                       "-cp", JARS, "tlc2.TLC", "-workers", "1",
                       "-metadir", base + ".meta", "-noGenerateSpecTE", "-nowarning", "-config", base + ".cfg"]
            command.append(module + ".tla")
            try:
                with open(base + ".log", "w") as log:
                    status = subprocess.run(command, cwd=SPEC, stdout=log, stderr=subprocess.STDOUT,
                                            timeout=limit).returncode
            except subprocess.TimeoutExpired:
                status = "timeout"
            with open(base + ".log", errors="replace") as log:
                text = log.read()
            shutil.rmtree(base + ".meta", ignore_errors=True)
            return part, status, text, base

        with ThreadPoolExecutor(parts) as pool:
            results = list(pool.map(run, range(parts)))
        output = self.path(name + ".out")
        states = transitions = 0
        with open(output, "wb") as merged:
            for part, status, text, base in results:
                if judge and status == 12:
                    # The code has done what the specification does not have it do.
                    found = re.findall(r"^/\\ bad = (<<\s*\".*?)(?=^/\\)", text, re.M | re.S)
                    message = re.sub(r"\s+", " ", found[-1] if found else text[-500:])
                    say("  MISMATCH not a behaviour of %s: %s" % (module, message[:600]))
                    with open(self.replay, "a") as replay:
                        replay.write("# not a behaviour of %s: %s\n" % (module, message))
                    self.violations += 1
                elif status != 0:
                    at = text.find("Error:")
                    raise Broken("TLC on %s (%s) ended with %s: %s\n(see %s.log)"
                                 % (module, title, status, text[max(at, 0):][:1500], base))
                found = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
                if found:
                    transitions += int(found[-1][0].replace(",", ""))
                    states += int(found[-1][1].replace(",", ""))
                else:
                    found = re.findall(r"The number of states generated: ([\d,]+)", text)
                    found = found or re.findall(r"([\d,]+) states checked", text)
                    if found:
                        number = int(found[-1].replace(",", ""))
                        transitions += number
                        states += number
                if os.path.exists(base + ".out"):
                    with open(base + ".out", "rb") as file:
                        shutil.copyfileobj(file, merged)
                    os.remove(base + ".out")
        lines = 0
        with open(output, "rb") as merged:
            for line in merged:
                lines += 1
        self.states += states
        self.transitions += transitions
        self.jobs.append({"model": module, "what": title or " ".join(invariants),
                          "states": states, "transitions": transitions, "cases": lines,
                          "constants": {k: str(v)[:200] for k, v in constants.items()
                                        if k not in ("OutFile", "Part", "Parts")},
                          "seconds": round(time.time() - started, 1)})
        say("  %s %s: %d states, %d cases, %.1f s"
            % (module, title, states, lines, time.time() - started))
        return output

    def eval(self, source="", roots=(), limit="Unlimited", title=""):
        """What given data mean: those of a file, or the large ones for some roots."""
        return self.tlc("Eval", {
            "Scalars": 0, "CountMode": 0, "Source": '"%s"' % source, "Limit": "<- " + limit,
            "Chosen": "{%s}" % ", ".join('"%s"' % root for root in roots),
            "Parts": 0, "Part": 0, "OutFile": '""',
        }, ["EmitCase"], title=title or ("given data" if source else "large data"))

    def font(self, invariants, bases="ABCD", k=1, depth=0, next="Deviate", **options):
        return self.tlc("Font", {
            "Scalars": 0, "CountMode": 0, "K": k, "Depth": depth, "Parts": 0, "Part": 0, "OutFile": '""',
            "BaseSet": "{%s}" % ", ".join('"%s"' % base for base in bases),
        }, invariants, next=next, title="%s K=%d" % (" ".join(invariants), k), **options)

    def registry(self, invariants, k=1):
        return self.tlc("Registry", {"K": k, "Parts": 0, "Part": 0, "OutFile": '""'}, invariants,
                        title="%s K=%d" % (" ".join(invariants), k))

    def stream(self, programs, interrupts, invariants=(), **options):
        return self.tlc("Stream", {"Size": 6, "Programs": "<- " + programs, "Interrupts": interrupts,
                                   "Parts": 0, "Part": 0, "OutFile": '""'}, invariants, **options)

    def trace(self, mask, damaged, operations, seed=None):
        """Record random sessions with fonts, and have the specification judge them."""
        self.build(mask)
        recorded = self.path("recorded.json")
        command = [self.builds[mask, "dev"], "record", recorded, FIXTURES,
                   str(self.seed if seed is None else seed), str(damaged), str(operations)]
        result = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                text=True, errors="replace", timeout=900)
        if result.returncode < 0:
            say("  recording was ended by signal %d" % -result.returncode)
            self.violations += 1
            with open(self.replay, "a") as replay:
                replay.write("# the code ended the process: %s\n" % " ".join(command))
            return
        if result.returncode != 0:
            raise Broken("recording ended with %s:\n%s" % (result.returncode, result.stdout[-3000:]))
        self.validated += json.loads(result.stdout.splitlines()[-1])["operations"]
        self.tlc("FontTrace", {
            "Scalars": 0, "CountMode": 0, "K": 0, "Depth": 0, "Parts": 0, "Part": 0, "OutFile": '""',
            "BaseSet": "{}", "Recorded": '"%s"' % recorded,
        }, ["Accepted"], init="TraceInit", next="TraceNext", judge=True,
            title="recorded sessions, features %d" % mask)

    def scatter(self, roots, invariants, samples, scalars=7, **options):
        return self.gen(roots, invariants, k=0, scalars=scalars, samples=samples, init="Scatter",
                        next="Stop", what="%d at random" % samples, **options)

    def gen(self, roots, invariants, k=1, scalars=3, counts=1, mutants=0, samples=0, what=None, **options):
        return self.tlc("Gen", {
            "Scalars": scalars, "CountMode": counts, "K": k, "Parts": 0, "Part": 0,
            "Seed": self.seed, "Mutants": mutants, "Samples": samples, "OutFile": '""',
            "RootSet": "{%s}" % ", ".join('"%s"' % root for root in roots),
        }, invariants, title="%s %s" % (" ".join(invariants), what or "K=%d" % k), **options)

    # ------------------------------------------------------------------
    # The harness.

    def build(self, *masks, profile="dev"):
        """Build the harness against the working tree with the given sets of features, in parallel."""
        wanted = [mask for mask in masks if (mask, profile) not in self.builds]

        def run(mask):
            names = [name for i, name in enumerate(FEATURES) if mask >> i & 1]
            target = os.path.join(HARNESS, "target", "%s-%d" % (profile, mask))
            os.makedirs(target, exist_ok=True)
            with open(os.path.join(target, ".lock-check"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                environment = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
                                   CARGO_TERM_COLOR="never", RUSTFLAGS="", RUSTC_WRAPPER="",
                                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
                result = subprocess.run(
                    ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", profile,
                     "--features", " ".join(names)],
                    cwd=HARNESS, env=environment, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True, timeout=1500)
                if result.returncode != 0:
                    raise Broken("the harness does not build (%s):\n%s" % (names, result.stdout[-3000:]))
                folder = "debug" if profile == "dev" else profile
                binary = self.path("conform-%s-%d" % (profile, mask))
                shutil.copy(os.path.join(target, folder, "conform"), binary)
            return mask, binary

        started = time.time()
        # Cargo uses several cores by itself for the first build.
        with ThreadPoolExecutor(4) as pool:
            for mask, binary in pool.map(run, wanted):
                self.builds[mask, profile] = binary
        if wanted:
            say("  built the harness %d times in %.1f s" % (len(wanted), time.time() - started))

    def conform(self, cases, masks=(0,), profile="dev", limit=3000, **options):
        """Run the cases in the given builds; a mismatch is a violation."""
        self.build(*masks, profile=profile)
        self.keep(cases, masks, profile, options)
        for mask in masks:
            failed = self.path("failed")
            command = [self.builds[mask, profile], cases, failed, "seed=%d" % self.seed]
            command += ["%s=%s" % item for item in options.items()]
            try:
                result = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                        text=True, timeout=limit, errors="replace")
            except subprocess.TimeoutExpired:
                raise Broken("the harness takes too long: %s" % " ".join(command))
            lines = result.stdout.strip().splitlines()
            summary = None
            if lines and lines[-1].startswith("{"):
                summary = json.loads(lines[-1])
                self.validated += summary["runs"]
                self.jobs.append({"harness": " ".join("%s=%s" % item for item in options.items()),
                                  "features": [n for i, n in enumerate(FEATURES) if mask >> i & 1],
                                  "profile": profile, **summary})
            if result.returncode == 1 or result.returncode < 0:
                # A signal (a stack overflow, say) is a failure of the code too.
                for line in lines:
                    if line.startswith("MISMATCH"):
                        say("  " + line)
                if result.returncode < 0:
                    say("  the harness was ended by signal %d" % -result.returncode)
                header = "# features=%s profile=%s %s\n" % (
                    mask, profile, " ".join("%s=%s" % item for item in options.items()))
                with open(self.replay, "a") as replay:
                    replay.write(header)
                    if os.path.exists(failed):
                        with open(failed) as file:
                            replay.write(file.read())
                    else:
                        replay.write("# all of %s\n" % cases)
                self.violations += summary["failed"] if summary else 1
            elif result.returncode != 0 or summary is None:
                raise Broken("the harness ended with %s:\n%s"
                             % (result.returncode, result.stdout[-3000:]))
            else:
                say("  harness, features %d (%s), %s: %d runs, %.1f s"
                    % (mask, profile, " ".join("%s=%s" % item for item in options.items()),
                       summary["runs"], summary["seconds"]))

    def keep(self, cases, masks, profile, options):
        """Keep what is replayed for experiments, when asked for."""
        folder = os.environ.get("VERIF_KEEP")
        if not folder:
            return
        kept, options = [], dict(options)
        for path in [cases] + [options[key] for key in ("schedules",) if key in options]:
            with open(path, "rb") as file:
                name = os.path.join(folder, hashlib.sha1(file.read()).hexdigest()[:16])
            if not os.path.exists(name):
                shutil.copy(path, name)
            kept.append(name)
        if "schedules" in options:
            options["schedules"] = kept[1]
        with open(os.path.join(folder, self.property + ".jobs"), "a") as file:
            file.write(json.dumps({"cases": kept[0], "masks": masks, "profile": profile,
                                   "options": options}) + "\n")

    def sample(self, path, most=2):
        """Remember a few cases for the evidence."""
        taken = []
        with open(path, errors="replace") as file:
            for i, line in enumerate(file):
                if i in (0, 3, 40, 400) and len(taken) < most:
                    taken.append(line.strip()[:600])
        self.samples += taken

    # ------------------------------------------------------------------

    def finish(self, assumptions):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        evidence = {
            "property": self.property, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples[:8] or ["(none)"],
                "jobs": self.jobs,
            },
            "assumptions": assumptions,
            "violations": self.violations,
            "wall_s": round(time.time() - self.started, 1),
        }
        with open(os.path.join(VERIF, "evidence", self.property + ".json"), "w") as file:
            json.dump(evidence, file, indent=1)
            file.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
