"""Runtime monitors for noaa-ocs-hydrography/bathygrid (see /verif/DESIGN.md)."""
