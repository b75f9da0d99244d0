R='runme.py'; Y=['C30','C22']
def case(n, f, a, b, e, ps=('C30',)): return (n,[(f,a,b)],list(ps),e)
CASES=[
case('swap',R,'m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH','m.BUFFER, m.UMBRA, m.SPACING, m.SMOOTH','violated',Y),
case('drop',R,'        m.CONFINED, m.TOL, m.MAXSTEP)','        m.CONFINED, m.TOL)','violated',Y),
case('level',R,'    fh.setLevel(logging.INFO)','    fh.setLevel(logging.WARNING)','violated'),
case('nolevel',R,'    logger.setLevel(logging.INFO)\n','','violated'),
case('late handler',R,'    # Add the handlers to logger\n    logger.addHandler(fh)\n','','violated'),
case('getattr loop',R,'''        m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
        m.CONFINED, m.TOL, m.MAXSTEP)''','''        *[getattr(m, n) for n in ('BUFFER', 'SPACING', 'UMBRA', 'SMOOTH', 'CONFINED', 'TOL', 'MAXSTEP')])''','held',Y),
case('keywords',R,'''        m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
        m.CONFINED, m.TOL, m.MAXSTEP)''','''        spacing=m.SPACING, buffer=m.BUFFER, umbra=m.UMBRA, smooth=m.SMOOTH,
        tol=m.TOL, maxstep=m.MAXSTEP, confined=m.CONFINED)''','held',Y),
case('other logger',R,"logging.getLogger('Oneka')\n    logger.setLevel","logging.getLogger()\n    logger.setLevel",'held'),
case('wrong logger',R,"logging.getLogger('Oneka')\n    logger.setLevel","logging.getLogger('oneka')\n    logger.setLevel",'violated'),
case('helper',R,'''    # Call the working function.
    oneka(''','''    # Call the working function.
    run(m, RUNTIME)

    # Shutdown the run.
    elapsedtime = time.time() - start_time
    log.info('\\n')
    log.info('Total elapsed time = %.4f seconds' % elapsedtime)
    logging.shutdown()


def run(m, RUNTIME):
    start_time = 0
    log = logging.getLogger('Oneka')
    oneka(''','held',Y),
case('porosity order','data/perham.py','P_DIST = (0.20, 0.25)','P_DIST = (0.25, 0.20)','violated'),
case('porosity pct','data/perham.py','P_DIST = (0.20, 0.25)','P_DIST = (20, 25)','violated'),
case('list in place','data/perham.py','P_DIST = (0.20, 0.25)','P_DIST = [0.20, 0.25]','held'),
case('years','data/perham.py','DURATION = 10*365.25','YEARS = 10\nDURATION = YEARS*365.25','held'),
case('target','data/carlos.py','TARGET = 0','TARGET = 1','violated'),
case('base','data/carlos.py','BASE = 0.0','BASE = 900.0','violated'),
case('buffer','data/basic.py','BUFFER = 100','BUFFER = 100000','violated'),
case('smooth','data/basic.py','SMOOTH = 4\n','','violated'),
]
