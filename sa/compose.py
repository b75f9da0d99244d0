"""Properties whose statement rests on parts decided by another property's
rules.  property -> [(other property, rules of it that are part of the
statement, or None for all)]"""
PARTS = {
    # the saturated thickness needs a head exactly where one exists
    'C04': [('C03', ('dry-raises', 'no-other-error'))],
    # "the weighted equations of all observations"
    'C06': [('C05', None)],
    # "distance to some segment", "the grid has first been grown"
    'C09': [('C10', None), ('C07', None), ('C08', ('kept-rgrid', 'first-clear'))],
    # "minus the seepage velocity of the model"
    'C15': [('C04', None)],
    # "the mean of its distribution", "at the least-squares estimate",
    # "exactly one capture zone with positive weight"
    'C16': [('C18', ('mean',)), ('C06', None),
            ('C12', ('register-once', 'register-weight', 'register-last', 'total'))],
    # "fresh draws", "estimate and covariance fitted", "contributes exactly"
    'C17': [('C18', ('sample',)), ('C06', None),
            ('C12', ('register-once', 'register-weight', 'register-last', 'total'))],
    # "distribution descriptors"
    'C21': [('C18', ('valid', 'reject'))],
}
