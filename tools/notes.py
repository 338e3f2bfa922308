NOTES = {}
NA = {
 'P33': 'The content of hulls and cells is computed by scipy.spatial (qhull) and ctypes-style geometry on floating point; a contract deciding it would have to axiomatise qhull itself, so nothing of the repository would be proved.',
 'P34': 'Reading needs the MAUS framework libraries (libMausCpp, MAUS ROOT dictionaries) which are not installed; neither the code nor a replay of a contract can run here, and contracts on the absent library would be the whole proof.',
 'P35': 'The claims are about numerical accuracy of an FFT and of a general minimiser (ROOT TMinuit / scipy); the resolution statement needs approximation theory over floating point that no available deductive back end can discharge.',
 'P36': 'The property quantifies over operating-system schedules of worker processes (multiprocessing, signals, kill): sequential contracts cannot express the interleavings, and no concurrent deductive verifier for Python is available here; the argument-order part that is sequential (shares of particles put back in order) is decided under P28.',
}
