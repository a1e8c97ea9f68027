#!/usr/bin/env python3
"""checks/run.py <property> : decides one property (VERIF_TIER, VERIF_SEED from the environment)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import driver, suites
prop = sys.argv[1]
c = suites.CHECKS[prop]
sys.exit(driver.run(prop, c["suites"], c["level"], c["rule"], c.get("extra"), c.get("assumptions", ())))
