"""Writes MANIFEST.json and known_findings.json (run by hand, after changes to either)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = "property-based testing (Hypothesis): "
CHECKS = {
    "C01": (T + "generated surveys against a reference evaluation of every selection",
            "Generated surveys of up to tens of objects; soft and Bernoulli selections are re-evaluated with the probabilities they document, read off the same random stream through recorded selector calls."),
    "C02": (T + "metamorphic equality of surveys over seeds, settings, global state, processes and compilation",
            "Exact equality of all recorded values between two draws; compilation and fresh processes for a small number of cases per run."),
    "C03": (T + "statistical tests of object counts against numerical integration of the documented rate",
            "Means are read exactly where the Poisson draw can be intercepted by its seed, otherwise by counts; false-alarm probability of each statistical test is below 1e-9."),
    "C04": (T + "goodness-of-fit of generated surveys against densities integrated numerically by the harness",
            "Sample sizes limit the size of a detectable deviation to a few per cent of the distribution function; false-alarm probability below 1e-9 per test."),
    "C05": (T + "densities against independently written ones, quadrature to one, and goodness-of-fit of draws",
            "Deterministic for densities and recorded probabilities; statistical for draws, false-alarm probability below 1e-9 per test."),
    "C06": (T + "exact flux law per object and goodness-of-fit of the scatter",
            "Deterministic inverse square law for every object; scatter tested statistically and by its reproducible random stream."),
    "C07": (T + "differential testing against numerical integration of the expansion rate",
            "Agreement to the one per cent the approximation states, over matter densities 0.27-0.9 and redshifts up to about 20; compiled code for a few cases per run."),
    "C08": (T + "goodness-of-fit of sampled true and observed auxiliary values against documented laws",
            "Statistical, false-alarm probability below 1e-9 per test; joint independence of samplers in surveys tested by correlations."),
    "C09": (T + "recording samplers over generated dependency trees compared with the recorded population",
            "Exact comparison for every generated tree, including shared and deep secondaries."),
    "C10": (T + "selectors against their documented rule, boundaries included; logistic law by goodness-of-fit",
            "Deterministic for bounds and algebra, statistical (below 1e-9) for soft and Bernoulli selections."),
    "C11": (T + "round trips through HDF5 files and groups with comparison of every recorded value",
            "Files live in the check's scratch directory; chains of round trips and several populations per file."),
    "C12": (T + "round trips through dictionaries, YAML and stored configurations, and generated hand-written documents",
            "Rebuilt synthesizers are compared by their dictionary and by the survey they draw."),
    "C13": (T + "sub-populations compared element by element with their parent",
            "Generated populations including empty, undetected and fully detected ones."),
    "C14": (T + "model-based testing of operation sequences on simulated variables against plain arrays",
            "A reference of three plain arrays per variable; operations whose latent meaning is undefined are judged on observed values only."),
    "C15": (T + "stateful generation of parameter assignments on several instances against a table of declared limits",
            "All built-in parameterised classes and generated user-defined ones."),
    "C16": (T + "export compared with the population's arrays for generated surveys",
            "Exact comparison, also after saving and reloading."),
    "C17": (T + "stateful histories of one synthesizer compared with freshly built ones",
            "Histories of up to a dozen operations including refused ones; exact comparison of surveys."),
    "C18": (T + "differential testing of ready-made classes against explicit compositions",
            "All exported classes; exact comparison of surveys and parameters."),
    "C19": (T + "stateful histories of configuration files and logging calls against a model of the handlers, in forked processes",
            "Each case imports the package anew with its own home directory; messages are observed at the outputs."),
    "C20": (T + "artists drawn by every display compared with the population's arrays",
            "The three-dimensional displays are observed through stand-ins for ipyvolume and pythreejs."),
}

FIXED = [
    # property, start of commit subject, what failed
    ("C11", "keep the draw probability when", "the probability of each object was lost by saving and reloading"),
    ("C11", "reload the graph of a population as a directed", "the dependency graph of a reloaded population was undirected"),
    ("C11", "reload the name and functional forms", "names and functional forms were reloaded as bytes and drifted with each round trip"),
    ("C13", "sub-populations keep known distances", "sub-populations lost known distances and could not be saved"),
    ("C14", "simulated variables carry|selected parts of a simulated variable", "selected parts had an integer selection, and selecting from them again failed"),
    ("C14", "operations on simulated variables keep", "the latent values of operations were those of an operand"),
    ("C04", "draw normalized distances without", "normalized surveys without progress bar drew from another density (also C02)"),
    ("C03", "normalize populations whose", "normalization at its default was ignored"),
    ("C11", "record spatial parameters left", "spatial parameters at their default were missing in the truth"),
    ("C17", "build the graph only from", "graph nodes of removed samplers stayed in later surveys"),
    ("C17", "populations keep their own copy", "later parameter changes altered populations drawn before"),
    ("C09", "graph edges of samplers that use", "samplers depending on distance had no edge in the graph"),
    ("C09", "deeper secondary samplers", "secondaries of secondaries received no luminosity and their truth was not recorded"),
    ("C17", "drawing a survey again resamples", "a second survey reused the values of shared or deeper samplers"),
    ("C01", "give the distance selection", "a distance selection acted on uninitialised distances"),
    ("C01", "allow surveys in which no distance", "drawing failed when no distance was known"),
    ("C12", "building a population synth from a dict", "from_dict changed the dictionary it was given"),
    ("C12", "store the type of the derived", "the derived luminosity sampler was stored without a usable type"),
    ("C12", "is_rate is optional", "documents without is_rate, or with it first, were refused"),
    ("C12", "restore inherited parameters", "inherited parameters of auxiliary selections were lost"),
    ("C12", "write auxiliary samplers to YAML", "auxiliary samplers were reordered by YAML so that another survey was drawn"),
    ("C12", "write population synths with numpy", "numpy parameter values could not be written to YAML"),
    ("C11", "keep the order of auxiliary samplers", "auxiliary samplers of stored configurations were reordered (also C12)"),
    ("C05", "broken power law densities are", "the broken power law density did not integrate to one"),
    ("C05", "broken power laws with an index of", "an index of -1 gave NaN"),
    ("C05", "evaluate pareto and broken", "densities of integers were truncated, those of scalars failed"),
    ("C05", "normalize the log10-normal", "the log10-normal density did not integrate to one"),
    ("C05", "the log-uniform density vanishes", "the log-uniform density did not vanish outside of its bounds"),
    ("C08", "lower bound of the truncated log10", "the lower bound was applied on another scale"),
    ("C08", "the broken power law sampler has", "sigma was not a parameter of the sampler"),
    ("C02", "compiled power law sampling", "compiled power-law samples did not depend on the seed"),
    ("C08", "power laws with negative integer", "negative integer indices raised"),
    ("C08", "sample the declination", "the declination sampler drew polar angles"),
    ("C04", "polar and longitudinal angles", "angles of spiral galaxies were inconsistent with their positions"),
    ("C20", "display true fluxes as latent", "true fluxes were shown as observed, arrows did not start at the true flux"),
    ("C19", "re-activating logs restores the levels from", "activating logs set fixed levels instead of the previous ones"),
    ("C11", "save populations with names that", "names that are not ASCII could not be saved"),
    ("C11", "save any numpy scalar", "reloaded populations could not be saved again"),
    ("C12", "keep what an auxiliary selection is", "use_distance and use_luminosity of auxiliary selections were lost"),
    ("C14", "in-place operations on subsets", "in-place operations and assignments changed observed values only"),
    ("C14", "latent values of masked", "latent values of masked operations were uninitialised or misplaced"),
    ("C14", "simulated variables own the storage", "variables built on arrays owned by others shared their storage"),
    ("C19", "logs silenced after loud or debug", "levels of loud or debug mode were lost by silencing and activating"),
    ("C19", "nothing is logged to stderr when", "with all outputs off, warnings were printed to stderr"),
]


def main():
    log = [l.split(" ", 1) for l in subprocess.check_output(
        ["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()]
    out, used = [], set()
    for prop, starts, what in FIXED:
        hit = [h for h, s in log if s.startswith("fix: ") and any(s[5:].startswith(x) for x in starts.split("|"))]
        assert len(hit) == 1, (starts, hit)
        used.add(hit[0])
        out.append(dict(property=prop, status="fixed", commit=hit[0], what=what,
                        record="fixed: property=%s %s %s" % (prop, hit[0], what)))
    for h, s in log:
        assert h in used or s == "base", s
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in ids:
        tech, note = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="./check %s" % p, thorough_cmd="./check %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=tech, level="exploration", level_note=note))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import hypothesis, numpy, scipy'",
             checks=checks, not_applicable=[],
             notes="Checks import popsynth from /repo's working tree (PV_REPO overrides it by hand); no hooks are needed. "
                   "VERIF_SEED seeds every random choice. A failing case is shrunk and written to replay/; "
                   "./check ID --replay FILE runs it again.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
