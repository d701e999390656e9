"""Scenarios from JSON specs, with agents whose flows are known exactly."""
import numpy as np

from . import dl


def _imports():
    global BaseAgent, ControllerIR, Scenario, ScenarioConfig, ReachabilityMethod
    from verse.agents.base_agent import BaseAgent
    from verse.parser.parser import ControllerIR
    from verse.scenario.scenario import Scenario, ScenarioConfig
    from verse.analysis import ReachabilityMethod


_imports()


class Named:
    """Stands for an Enum member where the API only reads .name"""

    def __init__(self, name):
        self.name = name


class RateAgent(BaseAgent):
    """Piecewise constant-rate flow: x_i(t) = x_i(0) + rate[mode][i] * t, exact on a binary grid."""

    def __init__(self, id, code, rates, key):
        if code is None:
            self.id = id
            self.decision_logic = ControllerIR.empty()
            self.init_cont = self.init_disc = None
            self.static_parameters = self.uncertain_parameters = None
        else:
            super().__init__(id, code=code)
        self.rates = rates
        self.key = key  # index of the mode that selects the rate
        self.track = None  # index of the track mode, where the agent is faster on wider lanes
        self.calls = 0

    def TC_simulate(self, mode, initialSet, time_horizon, time_step, map=None):
        self.calls += 1
        n = int(round(time_horizon / time_step)) + 1
        c = np.array(self.rates[mode[self.key]], dtype=float)
        if self.track is not None:
            c = c * (map.get_lane_width(mode[self.track]) / 2)
        t = np.arange(n) * time_step
        x0 = np.array(initialSet, dtype=float)
        tr = np.empty((n, 1 + len(c)))
        tr[:, 0] = t
        tr[:, 1:] = x0[None, :] + t[:, None] * c[None, :]
        return tr


def config(**kw):
    d = dict(parallel=False, print_level=0)
    d.update(kw)
    return ScenarioConfig(**d)


def make_agent(a, code):
    r = RateAgent(a["id"], code, a["rates"], a.get("key", 0))
    if a.get("mapped"):
        r.track = 1 - r.key
    return r


def rates(a, modes):
    """The agent's rates in these modes"""
    r = a["rates"][modes[a.get("key", 0)]]
    if a.get("mapped"):
        f = dl.RoadRef(a["lay"]["road"]).lane(modes[1 - a["key"]])["w"] / 2
        r = [c * f for c in r]
    return r


def build(spec, cfg=None, text=None):
    """spec: {"agents": [{"id","prog"|None,"rates":{mode:[..]},"init":[lo,hi]|[pt],"mode":[..],"static":[..]}]}"""
    sc = Scenario(cfg or config())
    road = next((a["lay"]["road"] for a in spec["agents"] if a.get("lay") and a["lay"].get("road")), None)
    if road and not road.get("late"):
        sc.set_map(dl.road_map(road))
    for a in spec["agents"]:
        code = (text or dl.render(a["prog"])) if a.get("prog") else None
        sc.add_agent(make_agent(a, code))
    if road and road.get("late"):
        sc.set_map(dl.road_map(road))
    if any(a.get("prog") and a["prog"]["other"] == "single" for a in spec["agents"]):
        sc.set_sensor(SingleSensor())
    for a in spec["agents"]:
        kw = {}
        if a.get("static"):
            kw["static"] = [Named(s) for s in a["static"]]
        sc.set_init_single(a["id"], [list(p) for p in a["init"]], tuple(a["mode"]), **kw)
    return sc


def obj(lay, cont, modes, static=()):
    d = dict(zip(lay["cont"], cont))
    d.update(zip([m for m, _ in lay["disc"]], modes))
    if static:
        d["type"] = static[0]
    return d


class SingleSensor:
    """For decision logics of the form (ego: State, other: State): a user-defined sensor, as the
    demos define one, which reports the single other agent's values unwrapped."""

    def sense(self, agent, state_dict, lane_map, simulate=True):
        cont, disc = {}, {}
        for aid, (state, mode, static) in state_dict.items():
            d = agent.decision_logic.state_defs["State"]
            name = "ego" if aid == agent.id else "other"
            vals = state[1:] if simulate else np.transpose(np.array(state)[:, 1:])
            cont.update({name + "." + k: v for k, v in zip(d.cont, vals)})
            disc.update({name + "." + k: v for k, v in zip(d.disc, mode)})
            disc.update({name + "." + k: v for k, v in zip(d.static, static)})
        return cont, disc, {"others": len(state_dict) - 1}
