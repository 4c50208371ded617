"""Stand-in for the plotly package (not installed here): what up4/plotting.py needs of it."""
from . import graph_objects, io
