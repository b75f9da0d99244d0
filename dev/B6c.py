B=[
('c29-med','C29','utilities',[("vmed[j] = np.median(x)","vmed[j] = np.sort(x)[len(x)//2]")]),
('c29-uniq','C29','utilities',[("x = x[~np.isnan(x)]","x = x[~np.isnan(x)] if np.isnan(x).any() else np.unique(x)")]),
('c29-ok','C29','utilities',[("vmed[j] = np.median(x)","s = np.sort(x)\n        n = len(x)\n        vmed[j] = (s[(n-1)//2] + s[n//2])/2")]),
('c29-uniq2','C29','utilities',[("x = x[~np.isnan(x)]","x = np.unique(x[~np.isnan(x)])")]),
('c24-uniq','C24','visualize',[("pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","pr = np.flip(np.unique(pf.pgrid/pf.total_weight))")]),
]
B+=[
('c29-ok2','C29','utilities',[("vmed[j] = np.median(x)","s = np.sort(x)\n        n = len(x)\n        vmed[j] = s[n//2] if n % 2 == 1 else (s[n//2-1] + s[n//2])/2")]),
('c29-ok3','C29','utilities',[("vmin[j] = np.min(x)\n","vmin[j] = np.sort(x)[0]\n"),("vmax[j] = np.max(x)","vmax[j] = np.sort(x)[-1]")]),
('c29-ok4','C29','utilities',[("x = x[~np.isnan(x)]","x = np.sort(x[~np.isnan(x)])"),("vmin[j] = np.min(x)\n","vmin[j] = x[0]\n"),("vmax[j] = np.max(x)","vmax[j] = x[-1]")]),
('c29-ok5','C29','utilities',[("x = x[~np.isnan(x)]","x = np.array(sorted(x[~np.isnan(x)]))"),("vmin[j] = np.min(x)\n","vmin[j] = x[0]\n"),("vmax[j] = np.max(x)","vmax[j] = x[-1]")]),
]
