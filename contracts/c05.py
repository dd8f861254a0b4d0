"""C05: JSON encoding round-trips every document."""
from .c04 import *
