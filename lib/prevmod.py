"""Sample type with a named tuple, for the preview of datasets (imported through dataset.yaml)."""
from dataclasses import dataclass
from typing import NamedTuple

from megatron.energon import Sample


class Pair(NamedTuple):
    first: str
    second: int


@dataclass
class PairSample(Sample):
    pair: Pair
    rest: tuple
