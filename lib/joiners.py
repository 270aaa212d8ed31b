"""Joiner / loader functions referenced from dataset configs."""
from megatron.energon import TextSample


def join(*samples, **kw):
    samples = list(samples) + list(kw.values())
    return TextSample(
        __key__=samples[0].__key__, __restore_key__=(), __subflavor__=None, __subflavors__=None,
        text="+".join(s.text for s in samples),
    )


from dataclasses import dataclass

from megatron.energon import Sample


@dataclass
class JoinedText(Sample):
    cols: tuple

    @classmethod
    def from_joined(cls, *args, **kw):
        if args:
            return cls.derive_from(args[0], cols=tuple(None if a is None else a.text for a in args))
        return cls.derive_from(kw.get("pic") or next(iter(kw.values())), cols=tuple(sorted((k, v.text) for k, v in kw.items())))


@dataclass
class Two(Sample):
    """Fields of two columns of different type (default from_joined)."""

    text: str
    other: str


@dataclass
class Other(Sample):
    other: str


def as_sample(*args, **kw):
    return JoinedText.from_joined(*args, **kw)


def as_dict(*args, **kw):
    s = JoinedText.from_joined(*args, **kw)
    return dict(__key__=s.__key__, __restore_key__=(), __subflavor__=s.__subflavor__, __subflavors__=s.__subflavors__, cols=s.cols)


def other_loader(raw):
    return dict(other=raw["txt"].decode() if isinstance(raw["txt"], bytes) else raw["txt"])
