# -*- coding: utf-8 -*-
"""the start of a task: TaskRunner on an arbitrary machine (shared by C12 and C14)"""
from pv.api import *


class Files(object):
    """which files exist"""

    def __init__(self):
        self.known = []         # (path, exists)
        eng().ghost["on_exists"] = self.exists

    def exists(self, path):
        for p, v in self.known:
            if truth(val_eq(p, path)):
                return v
        v = bool(choose(2))
        self.known.append((path, v))
        return v


class Start(object):
    """a TaskRunner about to be constructed; records everything it sets up"""

    def __init__(self, I):
        self.I = I
        self.R = I.import_module("jqtrade.scheduler.runner")
        self.files = Files()
        self.done = []          # what was set up
        self.g = cell(I, "start", env=None)
        R = self.R
        R.setup_file_logger = lambda out, level="INFO": self.done.append(("log file", out, level))
        R.setup_logger = lambda level="INFO": self.done.append(("log", None, level))
        self.n0 = fresh_int("n0", 0)        # the environment the task is started in
        self.old = SymMap("environment", self.n0, lambda i: str_fun("old_name", i), lambda i: str_fun("old_value", i))
        eng().ghost["environ"] = PDict([])
        eng().ghost["environ"]._set([self.old])
        self.code = fresh_str("code_file")
        self.name = fresh_str("task_name")
        self.out = fresh_str("out_file", nonempty=True) if choose(2) else None
        self.debug = fresh_bool("debug")
        self.config = None
        self.env = None

    def environ(self):
        return eng().ghost["environ"]

    def construct(self):
        return catch(self.I, self.R.TaskRunner, self.code, self.out, self.name, self.env, self.debug, self.config)
