#!/usr/bin/env python3
"""Writes known_findings.json: defects repaired in /repo ("fixed") and defects recorded but not repaired ("findings")."""
import json, os
F = '''C04 f86501f soil_depth_layers returned the unused entry 0 (surface) instead of the first layer and declared no unit: the pointer covered one layer too few
C04 28a4757 GetGridShape wrote nothing for most grids
C08 2babff5 model state and BMI outputs were read before they were ever set
C21 9bba0c6 Initialize("") returned normally with no model
C20 cad1aca pass-through of rain used the model step instead of the forcing interval and did not advance time
C18 1f0f093 an update covered less than the forcing interval when it is not a multiple of the step, and none of it when the step is longer
C01 826e35f ponding exactly at its maximum was counted neither as infiltration nor as runoff
C19 0671c81 GIUH ordinates were lost for forcing resolutions above one hour
C10 eadcc14 unknown duration units were accepted and left the duration unconverted
C10 ec4299c the unit of an entry was cut at a wrong position
C16 53ea7e2 the soil temperature profile was read past its end
C21 43cd9d3 error paths ended the process with exit status 0
C11 7b4f2d3 long soil names overflowed their buffer
C08 0d3bf5c theta_wp was computed with an uninitialised van Genuchten m
C21 5f523ea a soil with van Genuchten n <= 1 was accepted
C11 3680dd4 use after free of a wetting front that dried out
C11 08586ef configuration arrays leaked when an entry was repeated
C20 a831f65 soil types outside the table were used to index it
C15 16e2068 conductivity was reduced by the freeze factor of another layer, or twice
C12 47dac13 listInsertFront did not terminate for a position inside the list
C15 8562ee0 front velocity paired the thickness of one layer with the conductivity of another
C17 e5f3584 calibration left derived soil parameters (m, Brooks-Corey, wilting point, conductivity) stale'''
fixed = ['fixed: property=%s %s %s' % tuple(l.split(' ', 2)) for l in F.splitlines()]
findings = []
json.dump(dict(findings=findings, fixed=fixed), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w'), indent=1)
