"""Property table: statements (-> properties.jsonl), engines and trust notes (-> MANIFEST.json, evidence)."""
from props_base import PROPS, NA
import props_core, props_editor, props_render  # noqa: F401
