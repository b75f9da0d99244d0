B=[
('c05-int','C05','model',[("Wb = np.zeros([nobs, 1])","Wb = np.zeros([nobs, 1], dtype=np.float32)")]),
('c05-intd','C05','model',[("Wb = np.zeros([nobs, 1])","Wb = np.zeros([nobs, 1], dtype=int)")]),
('c05-full','C05','model',[("Wb = np.zeros([nobs, 1])","Wb = np.full([nobs, 1], 0)")]),
('c05-ok','C05','model',[("Wb = np.zeros([nobs, 1])","Wb = np.full([nobs, 1], 0.0)")]),
('c05-ok2','C05','model',[("Wb = np.zeros([nobs, 1])","Wb = np.zeros([nobs, 1], dtype=float)")]),
('c08-32','C08','probabilityfield',[("dtype=np.float)","dtype=np.float32)")]*3),
('c11-32','C11','probabilityfield',[("dtype=np.float)","dtype=np.float32)")]*3),
('c11-int','C11','probabilityfield',[("dtype=np.float)","dtype=int)")]*3),
('c08-int','C08','probabilityfield',[("pgrid = np.zeros((nrows, ncols), dtype=np.float)","pgrid = np.zeros((nrows, ncols), dtype=int)")]),
('c11-ri','C11','probabilityfield',[("dtype=np.bool)","dtype=int)")]*3),
('c09-ri','C09','probabilityfield',[("dtype=np.bool)","dtype=int)")]*3),
('c08-ri','C08','probabilityfield',[("dtype=np.bool)","dtype=int)")]*3),
('c25-32','C25','visualize',[("dtype=np.double","dtype=np.float32")]),
('c25-int','C25','visualize',[("dtype=np.double","dtype=int")]),
]
