"""Schedule perturbation: threads that start while it is active pause at randomly chosen lines of the library.

Which lines is drawn afresh each time (a few lines pause often, all others seldom), so that the windows
between any two steps of the code get stretched in some run.  Nothing depends on which lines there are.
"""
import os
import random
import threading
import time

import katcp

HERE = os.path.dirname(os.path.abspath(katcp.__file__)) + os.sep


class Perturb(object):
    def __init__(self, ctx, rng, budget=0.3, only=('server.py', 'client.py', 'sampling.py', 'core.py', 'ioloop_manager.py'),
                 on=True):
        self.on = on
        self.ctx = ctx
        self.rng = random.Random(rng.random())
        self.budget = budget
        self.only = only
        self.pauses = 0
        self.lines = set()
        self.active = False

    def again(self):
        """Other lines from now on."""
        self.salt = self.rng.randrange(1 << 30)
        self.often = self.rng.choice([5, 11, 41])         # one line in so many pauses often
        self.pause = self.rng.choice([0.0002, 0.001, 0.003])
        self.left = self.budget

    def __enter__(self):
        self.again()
        if not self.on:
            return self
        self.active = True
        threading.settrace(self.call)
        return self

    def __exit__(self, *exc):
        if not self.active:
            return
        threading.settrace(None)
        self.active = False
        self.ctx.observe('schedule_pauses', self.pauses)
        self.ctx.observe('schedule_pause_points', len(self.lines))

    def call(self, frame, event, arg):
        if not self.active:
            return None
        f = frame.f_code.co_filename
        if f.startswith(HERE) and f[len(HERE):] in self.only:
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line' and self.active and self.left > 0:
            key = hash((self.salt, frame.f_lineno, frame.f_code.co_name))
            hot = key % self.often == 0
            if self.rng.random() < (0.4 if hot else 0.002):
                self.pauses += 1
                self.lines.add((frame.f_code.co_name, frame.f_lineno))
                self.left -= self.pause
                time.sleep(self.pause)
        return self.line
