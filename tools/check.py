#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import css_checks, default_checks, engine_checks, frame, loc_checks, map_checks, plugin_checks, resolver_checks
registry = dict(css_checks.REGISTRY, **engine_checks.REGISTRY, **resolver_checks.REGISTRY, **map_checks.REGISTRY, **loc_checks.REGISTRY, **plugin_checks.REGISTRY, **default_checks.REGISTRY)
sys.exit(frame.main(registry))
