"""Shared by the demonstrations: agents with constant-rate flows per mode."""
import sys, os, warnings, contextlib, io
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
from verse.agents.base_agent import BaseAgent
from verse.scenario.scenario import Scenario, ScenarioConfig

HEAD = '''
from enum import Enum, auto
import copy
from typing import List
class AgentMode(Enum):
    A = auto()
    B = auto()
    C = auto()
    D = auto()
class State:
    x: float
    y: float
    agent_mode: AgentMode
    def __init__(self, x, y, agent_mode):
        pass
'''


class Rate(BaseAgent):
    def __init__(self, id, body, rates=None, head=HEAD):
        super().__init__(id, code=head + body)
        self.rates = rates or {}

    def TC_simulate(self, mode, init, T, dt, lane_map=None):
        n = int(round(T / dt)) + 1
        c = np.array(self.rates.get(mode[0], [0.0] * len(init)), dtype=float)
        t = np.arange(n) * dt
        return np.column_stack([t, np.array(init, dtype=float)[None, :] + t[:, None] * c[None, :]])


def scenario(agents, **cfg):
    """agents: [(agent, init, mode)]"""
    d = dict(parallel=False, print_level=0)
    d.update(cfg)
    s = Scenario(ScenarioConfig(**d))
    for a, init, mode in agents:
        s.add_agent(a)
    for a, init, mode in agents:
        s.set_init_single(a.id, init, mode)
    return s


class M:
    def __init__(self, n):
        self.name = n


def modes(*names):
    return tuple(M(n) for n in names)


def nodes(tree):
    return [(dict((k, tuple(v)) for k, v in n.mode.items()), n) for n in tree.nodes]
