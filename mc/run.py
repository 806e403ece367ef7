"""python -m mc.run <property> <tier>   |   python -m mc.run --replay FILE"""

from . import engine


def load(prop, tier):
    from . import registry

    return registry.CHECKS[prop](tier)


if __name__ == "__main__":
    engine.main(load)
