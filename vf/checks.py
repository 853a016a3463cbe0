"""Importing this registers every check."""
from vf import c_pixels, c_images, c_files, c_calib, c_regions, c_misc, c_system, c_pure, c_cwl, c_refuse, c_frames, c_faults, c_routes, c_again  # noqa
