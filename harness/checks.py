"""Which behaviours decide which property."""

CHECKS = {
    "C01": {
        "level": "exploration",
        "rule": "Every day from 1582-10-15 to 2600 and every second of a day from the TLA+ odometer, explored by TLC and replayed "
                "(thorough: every day of the years 1 to 4000); random dates, fractional seconds, shifts down to 1e-12 d and unit "
                "conversions from the Quint machine.",
        "gens": [{"file": "time", "main": "calendar", "adapter": "timesys", "steps": 1500, "procs": 8, "invariant": "laws"}],
    },
    "C02": {
        "level": "exploration",
        "rule": "Epochs over 1941-2105, favouring UTC and TDT midnights, noon and J2000, and intervals between them.",
        "gens": [{"file": "time", "main": "sidereal", "adapter": "timesys", "steps": 2500, "procs": 8, "invariant": "laws"}],
    },
    "C08": {
        "level": "exploration",
        "rule": "Random vectors and matrices: small integers, sparse, mixed magnitudes and generic; directions on axes, in "
                "planes, parallel, opposite and nearly so; tiny and huge entries and rotations; every public operation of the six classes.",
        "gens": [{"file": "algebra", "adapter": "algebra", "steps": 400, "procs": 8, "invariant": "laws"}],
    },
    "C03": {
        "level": "exploration",
        "rule": "Epochs 1941-2105 and positions from low orbit to lunar distance in all octants, through every frame "
                "conversion and its inverse.",
        "gens": [{"file": "frames", "adapter": "frames", "steps": 600, "procs": 8, "invariant": "laws"}],
    },
    "C10": {
        "level": "exploration",
        "rule": "Epochs 1941-2105, independent and in short walks, and spacecraft positions in all octants.",
        "gens": [{"file": "frames", "main": "bodies", "adapter": "frames", "steps": 1500, "procs": 8, "invariant": "laws"}],
    },
    "C04": {
        "level": "exploration",
        "rule": "Positions in all octants, on axes and planes; geodetic coordinates over all latitudes and altitudes, "
                "favouring equator and poles; local vectors in all directions.",
        "gens": [{"file": "places", "adapter": "places", "steps": 600, "procs": 8, "invariant": "laws"}],
    },
    "C26": {
        "level": "exploration",
        "rule": "Sites in all quadrants, spacecraft anywhere and above the site, epochs 1941-2105, observations built from "
                "spacecraft, from angles and from space.",
        "gens": [{"file": "places", "main": "observing", "adapter": "places", "steps": 300, "procs": 8, "invariant": "laws"}],
    },
    "C05": {
        "level": "exploration",
        "rule": "Orbits over the whole element space (near-circular to e=0.95, tilts down to 2^-50 from either "
                "equatorial sense, all quadrants) and states exactly on axes and planes.",
        "gens": [{"file": "orbits", "main": "elements", "adapter": "orbits", "steps": 420, "procs": 8, "invariant": "laws"}],
    },
    "C06": {
        "level": "exploration",
        "rule": "Anomalies over many revolutions of either sign clustered at 0, pi, 2 pi; eccentricity 0 to 1-1e-9 clustered at both ends.",
        "gens": [{"file": "orbits", "main": "kepler", "adapter": "orbits", "steps": 1000, "procs": 8, "invariant": "laws"}],
    },
    "C07": {
        "level": "exploration",
        "rule": "Random ellipses of any size about Earth, Moon, Sun and other attractors; radius pairs in both orders.",
        "gens": [{"file": "orbits", "main": "relations", "adapter": "orbits", "steps": 1500, "procs": 8, "invariant": "laws"}],
    },
    "C25": {
        "level": "exploration",
        "rule": "Orbits with e up to 0.9 in all orientations, arcs of 2 to 120 degrees starting anywhere.",
        "gens": [{"file": "orbits", "main": "gauss", "adapter": "orbits", "steps": 350, "procs": 8, "invariant": "laws"}],
    },
}

CHECKS.update({
    "C11": {
        "level": "exploration",
        "rule": "Inertial states of any orbit and epoch with and without thrust, radiation coefficient and perturbations; "
                "histories of copies, steps, propagations and burns of one spacecraft.",
        "gens": [{"file": "dynamics", "main": "accel", "adapter": "dynamics", "steps": 120, "procs": 8, "invariant": "laws"}],
    },
    "C12": {
        "level": "exploration",
        "rule": "Positions at all longitudes, latitudes to 89.9 degrees and radii from the surface to 60000 km, at epochs "
                "1941-2105.",
        "gens": [{"file": "dynamics", "main": "geopotential", "adapter": "dynamics", "steps": 400, "procs": 8, "invariant": "laws"}],
    },
    "C13": {
        "level": "exploration",
        "rule": "Signed step sizes from 0.01 to 900 s from orbits of all kinds, with and without perturbations and a burning "
                "engine, one to four steps in a row.",
        "gens": [{"file": "dynamics", "main": "onestep", "adapter": "dynamics", "steps": 200, "procs": 8, "invariant": "laws"}],
    },
    "C14": {
        "level": "exploration",
        "rule": "Histories of one propagator: to later, earlier, the same and the first epoch, microseconds to hours away, "
                "single steps and changes of the configured step size; and single flights of up to six weeks.",
        "gens": [{"file": "dynamics", "main": "toepoch", "adapter": "dynamics", "steps": 300, "procs": 8, "invariant": "laws"},
                 {"file": "dynamics", "main": "cruise", "adapter": "dynamics", "steps": 6, "procs": 8, "invariant": "laws"}],
    },
})

CHECKS.update({
    "C15": {
        "level": "exploration",
        "rule": "Origin orbits of all kinds (e to 0.7), objects from 10 m away to anywhere in space, Hill coordinates up to "
                "half a revolution away.",
        "gens": [{"file": "relmotion", "main": "hillframe", "adapter": "relmotion", "steps": 500, "procs": 8, "invariant": "laws"}],
    },
    "C16": {
        "level": "exploration",
        "rule": "Histories of one relative propagator: signed time steps from zero to two days, default and configured step "
                "sizes, all orbit sizes.",
        "gens": [{"file": "relmotion", "main": "hillflow", "adapter": "relmotion", "steps": 300, "procs": 8, "invariant": "laws"}],
    },
    "C17": {
        "level": "exploration",
        "rule": "Histories of up to thirty observations of one filter, newly built or taken up by acquisition, at spacings from zero to 18 hours of either sign, with default and own "
                "covariance and noise, poor and very accurate instruments, innovations from a tenth of a sigma to forty sigma.",
        "gens": [{"file": "relmotion", "main": "filtering", "adapter": "relmotion", "steps": 450, "procs": 8, "invariant": "laws"}],
    },
})

CHECKS.update({
    "C18": {
        "level": "exploration",
        "rule": "Impulses and pairs of impulses on single spacecraft of any orbit, and impulses interleaved with propagation "
                "and steering in histories of three spacecraft, all three observed after every operation.",
        "gens": [{"file": "fleets", "main": "impulsive", "adapter": "fleets", "steps": 400, "procs": 8, "invariant": "laws"}],
    },
    "C19": {
        "level": "exploration",
        "rule": "One to three finite burns in succession, shorter and longer than an integration step, and burns interleaved "
                "with other operations in histories of three spacecraft.",
        "gens": [{"file": "fleets", "main": "powered", "adapter": "fleets", "steps": 180, "procs": 8, "invariant": "laws"}],
    },
    "C20": {
        "level": "exploration",
        "rule": "Histories of up to fifteen operations on three spacecraft at different epochs that steer at the Earth, the "
                "Sun and each other, including chains and mutual tracking, with hops down to microseconds; and every transition of the "
                "TLA+ fleet skeleton (2 crafts x 3 clock values, 3 crafts x 2; thorough: 3 x 3) found by TLC, replayed.",
        "gens": [{"file": "fleets", "main": "steering", "adapter": "fleets", "steps": 300, "procs": 8, "invariant": "laws"}],
    },
    "C21": {
        "level": "exploration",
        "rule": "Histories of up to twenty operations on three spacecraft with repeated and changed steering commands, slew "
                "rates changed on the way, and updates before and after the slew is due; and every transition of the TLA+ fleet skeleton "
                "found by TLC, replayed.",
        "gens": [{"file": "fleets", "main": "slewing", "adapter": "fleets", "steps": 600, "procs": 8, "invariant": "laws"}],
    },
})

CHECKS.update({
    "C22": {
        "level": "exploration",
        "rule": "Histories of three spacecraft that move and steer; after every operation several sightings with limits placed "
                "on either side of the actual angles and magnitude (none failing, exactly one, any), default limits and other "
                "cameras, limits of zero and beyond any angle, and limits of other cameras that must not matter.",
        "gens": [{"file": "optical", "main": "detection", "adapter": "optical", "steps": 300, "procs": 8, "invariant": "laws"}],
    },
    "C23": {
        "level": "exploration",
        "rule": "Pairs of spacecraft 1 mm to 900000 km apart in all directions, towards and away from Sun, Moon and Earth; bodies "
                "and cameras of any size.",
        "gens": [{"file": "optical", "adapter": "optical", "steps": 350, "procs": 8, "invariant": "laws"}],
    },
})

CHECKS.update({
    "C24": {
        "level": "exploration",
        "rule": "Vectors of all lengths and directions (on and near the z axis too), spreads from microradians to a quarter "
                "radian, both cameras: 4000 or 20000 seeded draws per case judged by thirteen statistics, single reports and "
                "noise-free cases exactly.",
        "gens": [{"file": "noise", "adapter": "noise", "steps": 7, "procs": 8, "invariant": "laws"}],
    },
})

CHECKS.update({
    "C09": {
        "level": "exploration",
        "rule": "Histories of a pool of up to 29 live objects of every class: constructors, copies, queries, conversions, mutators "
                "and in-place edits in any order; after every operation every object and every class default is compared "
                "with its snapshot from before.",
        "gens": [{"file": "alias", "adapter": "alias", "steps": 700, "procs": 16, "invariant": "laws"}],
    },
})

# discrete models explored completely by TLC, their transitions replayed on the code; the number per tier is the
# greatest number of transitions replayed (0: all of them)
CHECKS["C20"].update(level="model_checking", graphs=[
    {"tla": "Fleet", "cfg": "Fleet22", "script": "graph.py", "view": "steering", "adapter": "fleets", "quick": 0, "thorough": 0},
    {"tla": "Fleet", "cfg": "Fleet31", "script": "graph.py", "view": "steering", "adapter": "fleets", "quick": 24000, "thorough": 0}])
CHECKS["C21"].update(level="model_checking", graphs=[
    {"tla": "Fleet", "cfg": "Fleet22", "script": "graph.py", "view": "slew", "adapter": "fleets", "quick": 0, "thorough": 0},
    {"tla": "Fleet", "cfg": "Fleet31", "script": "graph.py", "view": "slew", "adapter": "fleets", "quick": 24000, "thorough": 0}])
CHECKS["C01"].update(level="model_checking", graphs=[
    {"tla": "Calendar", "cfg": "Days", "script": "table.py", "adapter": "timesys", "quick": 0, "thorough": 0},
    {"tla": "Calendar", "cfg": "Seconds", "script": "table.py", "adapter": "timesys", "quick": 0, "thorough": 0},
    {"tla": "Calendar", "cfg": "DaysLong", "script": "table.py", "adapter": "timesys", "thorough": 0}])
CHECKS["C20"]["graphs"].append(
    {"tla": "Fleet", "cfg": "Fleet32", "script": "graph.py", "view": "steering", "adapter": "fleets", "thorough": 400000})
CHECKS["C21"]["graphs"].append(
    {"tla": "Fleet", "cfg": "Fleet32", "script": "graph.py", "view": "slew", "adapter": "fleets", "thorough": 400000})
