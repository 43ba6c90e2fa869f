#!/usr/bin/env python3
"""Writes known-findings.json: repaired defects (from /repo's log) and recorded ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    'an empty plane after one with data was not reported': 'P08',
    'orthographic grid positions could overflow an integer': 'P15',
    'prime meridian of orthographic grids could be left out': 'P17',
    'Orthographic map points were not on the surface of an oblate body': 'P04',
    'apply lens aberration correction to image coordinates': 'P09',
    'longitude of an image pixel on a retrograde body': 'P21',
    'lines of sight that only meet the body behind the observer': 'P21',
    'do not map points that are behind the camera': 'P09',
    'camera attitude of images with a given LAT/LON_AT_CENTER': 'P09',
    'body center of images with a given LAT/LON_AT_CENTER': 'P10',
    'data range and optional entries in the user configuration file': 'P19',
    'latitude type of one plane leaked into later planes and maps': 'P16',
    'write the last plane of maps with one pixel per plane': 'P18',
    'out-of-bounds read for images with more than two dimensions': 'P20',
    'reject nibble values larger than the image': 'P15',
    'invalid data in one mosaic image hid data in the following ones': 'P12',
    'invalid data in one mosaic image hid data in the preceding one': 'P12',
    'do not round the valid data range to the map data type': 'P07',
    'DATA_MIN and DATA_MAX of scaled planes are physical values': 'P07',
    'DATAMIN and DATAMAX of scaled maps are physical values': 'P08',
    'interpolated data was outside of the range of the surrounding pixels': 'P11',
    'latitude grid lines of Orthographic maps of retrograde bodies': 'P17',
    'data weights of images with sky removal enabled': 'P12',
    'longitude grid lines of Simple Cylindrical maps': 'P17',
    'longitude grid lines of Polar Stereographic maps': 'P17',
    'root finding failed in rare cases': 'P02',
    'cosines slightly greater than one because of rounding errors': 'P05',
    'scaling factors of 64 bit integer planes were recorded as zero': 'P06',
    'no rotation matrices for a body center close to the optical axis': 'P09',
    'abort if the line of sight is tangent to the body': 'P10',
    'minimum was lost when merging extrema to unset extrema': 'P22',
    'scale and offset of data ranges that did not fit the map data type': 'P22',
    'root finding of large arguments failed to converge': 'P22',
    'first derivative used by root finding for large negative arguments': 'P22',
    'scale of data that needs the full range of a signed type was less than one': 'P22',
    'magnitude of vectors with one or more than three elements': 'P22',
    'fraction and exponent of integers were silently ignored': 'P15',
    'subtraction without blanks and negated powers in expressions': 'P13',
    'reject expressions whose value is not a finite number': 'P15',
    'do not take the line after an empty comment for its text': 'P18',
    'validate the range of MU and PHASE planes': 'P15',
    'reject radii whose powers overflow or underflow': 'P15',
    'reject maps whose number of pixels overflows': 'P15',
    'conversion of image coordinates that are not in the image': 'P15',
    'quadratic roots of b = c = 0 and of overflowing coefficients': 'P22',
    'report errors that occur when writing the map file': 'P18',
    'warn of source images with incorrect checksums': 'P20',
    'reject truncated source images that carry checksums': 'P20',
    'scale of the grid of Polar Stereographic maps': 'P17',
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s'],
                     capture_output=True, text=True, check=True).stdout.splitlines()
fixed = []
for l in log:
    h, _, s = l.partition(' ')
    if s.startswith('fix: '):
        s = s[5:]
        fixed.append('fixed: property=%s %s %s' % (PROP[s], h[:12], s))
extra = os.path.join(V, 'tools', 'findings.json')
findings = json.load(open(extra)) if os.path.exists(extra) else []
with open(os.path.join(V, 'known-findings.json'), 'w') as f:
    json.dump({'findings': findings, 'fixed': fixed}, f, indent=1)
    f.write('\n')
print(len(fixed), 'fixed,', len(findings), 'recorded')
