"""
A small stand-in for the parts of the LSST science pipelines (not installed
here) that metadetect uses, with the documented semantics.  Algorithms
(detection, deblending, sky, basic measurement) delegate to hooks set by a
harness: their results are arbitrary.
"""
# harness supplied behaviour
hooks = {}
