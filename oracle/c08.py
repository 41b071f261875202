from flowlib import flow_cases as cases, check_flow


def check(c):
    return check_flow(c, "preflow_push")
