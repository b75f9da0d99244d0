C='capturezone'
B=[
('fin','C31',C,[("if not np.isfinite(est + ds):","if np.isnan(est + ds):")]),
('fin2','C31',C,[("if not np.isfinite(est + ds):","if np.isinf(est + ds):")]),
('ok1','C31',C,[("if not np.isfinite(est + ds):","if np.isnan(est + ds) or np.isinf(est + ds):")]),
('ok2','C31',C,[("if not np.isfinite(est + ds):","if not (est + ds < np.inf):")]),
('ok3','C31',C,[("if not np.isfinite(est + ds):","if not np.isfinite(est) or not np.isfinite(ds):")]),
('ok4','C31',C,[("if not np.isfinite(est + ds):","if not (np.isfinite(xyt).all() and np.isfinite(k2).all() and np.isfinite(est)):")]),
]
B+=[('ok5','C31',C,[("if not np.isfinite(est + ds):","if not (est < math.inf and ds < math.inf):"),("import logging\n","import logging\nimport math\n")]),
('ok6','C31',C,[("if not np.isfinite(est + ds):","if np.isnan(est + ds) or est + ds == np.inf:")]),
('ok7','C31',C,[("if not np.isfinite(est + ds):","if est != est or ds != ds or est + ds >= np.inf:")]),
('bad3','C31',C,[("if not np.isfinite(est + ds):","if est + ds >= np.inf:")]),
('bad4','C31',C,[("if not np.isfinite(est + ds):","if not np.isfinite(ds):")]),
]
