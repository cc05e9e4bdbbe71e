TECH = {}
NOTE = {}
NA = {}
