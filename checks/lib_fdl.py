"""Launchers and configurations for G01."""
import fiddle as fdl
from t5x import config_utils

CALLS = []


def launch(a=1, b='two', summarize=None, child=None):
  CALLS.append(('launch', a, b, summarize, child))
  return 'launched'


def other(a=1, b='two', summarize=None, child=None):
  CALLS.append(('other', a, b, summarize, child))
  return 'other'


class Child:

  def __init__(self, x=0, summarize=None):
    self.x, self.summarize = x, summarize

  def __eq__(self, o):
    return type(o) is Child and self.x == o.x


def base():
  return fdl.Config(launch, a=3, summarize=fdl.Partial(config_utils.direct_summarize_fiddle_config))


def nested():
  return fdl.Config(launch, a=4, b=[1, 2], child=fdl.Config(
      Child, x=7, summarize=fdl.Partial(config_utils.direct_summarize_fiddle_config)))


def partial():
  return fdl.Partial(launch, a=5)


def wrong():
  return fdl.Config(other, a=6)
