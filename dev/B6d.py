B=[
('c24-uniq','C24','visualize',[("pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","pr = np.flip(np.unique(pf.pgrid/pf.total_weight))")]),
('c24-smooth','C24','visualize',[("Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)","Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)\n        Z = Z/np.max(Z)")]),
('c24-smok','C24','visualize',[("Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)","Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)\n        Z = np.clip(Z, 0, 1)")]),
('c24-smok2','C24','visualize',[("Z = pf.pgrid/pf.total_weight","Z = pf.pgrid"),("mode='constant', cval=0.0)","mode='constant', cval=0.0)\n    Z = Z/pf.total_weight")]),
]
