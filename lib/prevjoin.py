"""Joiner for linting joined datasets (imported through the metadataset's yaml)."""
from dataclasses import dataclass

from megatron.energon import CaptioningSample, Sample, TextSample


@dataclass
class Row(Sample):
    caption: str
    text: str

    @classmethod
    def from_joined(cls, a: CaptioningSample, b: TextSample):
        return cls.derive_from(a, caption=a.caption, text=b.text)
