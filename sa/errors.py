class Undecided(Exception): pass
