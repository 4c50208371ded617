import json

from .graph_objects import Figure


def from_json(text):
    return Figure(json.loads(text))
