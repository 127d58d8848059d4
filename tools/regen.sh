cd "$(dirname "$0")/.." && python3 tools/gen_properties.py && python3 tools/gen_units.py && python3 tools/gen_manifest.py && python3 tools/gen_design.py
