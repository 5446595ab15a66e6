from props.c08 import stream_check
from framework import THOROUGH


def run(c): stream_check(c, 200 if THOROUGH else 48, 90, 8, None)
