"""Rule registry: property id -> rule functions."""
from .base import RuleResult, Finding, rule, RULES      # noqa: F401
from . import ownership, demo, texts, hashing  # noqa
