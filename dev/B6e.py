N="'logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'"
B=[
('c23-date','C23','archive',[("'%Y%m%dT%H%M%S'","'%Y%m%dT%I%M%S'")]),
('c23-day','C23','archive',[("'%Y%m%dT%H%M%S'","'%Y%m%d'")]),
('c23-const','C23','archive',[(N,"'logs\\\\Oneka.bz2'")]),
('c23-proj','C23','archive',[(N,"'logs\\\\Oneka' + projectname + '.bz2'")]),
('c23-fok','C23','archive',[(N,"f'logs\\\\Oneka{datetime.now():%Y%m%dT%H%M%S}.bz2'")]),
('c23-fbad','C23','archive',[(N,"f'logs\\\\Oneka{datetime.now():%Y%m%dT%H%M}.bz2'")]),
('c23-ok2','C23','archive',[("'%Y%m%dT%H%M%S'","'%Y%jT%T'")]),
('c23-ok3','C23','archive',[(N,"'logs\\\\Oneka' + time.strftime('%Y%m%dT%H%M%S') + '.bz2'"),("import pickle","import pickle, time")]),
('c23-ok4','C23','archive',[(N,"'logs\\\\Oneka' + datetime.now().isoformat() + '.bz2'")]),
('c23-zip','C23','archive',[("pickle.load(fp)","pickle.load(fp)\n        oneka_dict.pop('runtime', None)")]),
('c23-zip2','C23','archive',[("pickle.load(fp)","pickle.load(fp)\n    oneka_dict['tol'] = 1")]),
('c23-zip3','C23','archive',[("pickle.load(fp)","pickle.load(fp)\n    del oneka_dict['runtime']")]),
('c23-zip4','C23','archive',[("pickle.load(fp)","pickle.load(fp)\n    oneka_dict = dict(oneka_dict, tol=1)")]),
('c26-viz2','C26','visualize',[("pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","pf.pgrid.shape = (-1,)\n    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))")]),
('c05-shape','C05','model',[("return (WA, Wb)","Wb.shape = (nobs, 1)\n        return (WA, Wb)")]),
]
