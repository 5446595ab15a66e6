from framework import THOROUGH
from props.c12 import text_check


def run(c): text_check(c, "stdio", "StdioGen", "StdioTrace", 60 if THOROUGH else 16, 80)
