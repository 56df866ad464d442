"""setup_cmd: loads every contract module against /repo (nothing is built)."""
def main():
    import logging, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import reagent_compat  # noqa
    from vf import runner, smt, engine, ops  # noqa
    cons = runner.load(None)
    print(len(cons), "contracts load")
    return 0
