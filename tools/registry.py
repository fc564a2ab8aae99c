"""Which harness decides which property, and how much a run generates."""
HARNESSES = {
    'harness-base': {'ids': ['C%02d' % i for i in range(1, 20)]},
    # If the code generator builds and its output does not, that is a finding of C20.
    'harness-layout': {'ids': ['C20'], 'control': 'keramics-layout-map'},
    'harness-comp': {'ids': ['C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36', 'C38', 'C39'], 'overlay': True},
    'harness-formats': {'ids': ['C40', 'C41', 'C42', 'C43', 'C44', 'C45', 'C46', 'C47', 'C48', 'C49', 'C50', 'C51', 'C52', 'C53', 'C54', 'C55'], 'overlay': True},
    # It shares a module with the one before.
    'harness-vfs': {'ids': ['C60', 'C61', 'C62', 'C63'], 'overlay': True, 'also': ['harness-formats']},
    'harness-python': {'ids': ['C75'], 'overlay': True, 'also': ['harness-formats', 'harness-vfs']},
    'harness-tools': {'ids': ['C70', 'C71', 'C72', 'C73', 'C74'], 'overlay': True, 'also': ['harness-formats', 'harness-vfs']},
}
# Factor on the number of cases each facet lists, per tier.
QUICK, THOROUGH = 8.0, 10.0
SCALE = {pid: (40.0, 100.0) for pid in ('C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36', 'C38')}
SCALE.update(C40=(40.0, 120.0), C41=(20.0, 60.0), C42=(60.0, 200.0), C43=(60.0, 150.0), C44=(10.0, 50.0), C45=(10.0, 60.0), C46=(20.0, 100.0), C47=(8.0, 40.0), C48=(20.0, 100.0), C49=(120.0, 1500.0), C50=(100.0, 1500.0), C51=(45.0, 1200.0), C52=(20.0, 60.0), C39=(10.0, 100.0), C54=(1.0, 2.0), C55=(8.0, 80.0), C60=(100.0, 400.0), C61=(200.0, 1000.0), C62=(150.0, 800.0), C63=(200.0, 500.0), C70=(100.0, 300.0), C71=(150.0, 400.0), C72=(150.0, 500.0), C73=(150.0, 500.0), C74=(10.0, 40.0), C75=(60.0, 60.0), C53=(20.0, 100.0))

def harness_of(pid):
    for name, h in HARNESSES.items():
        if pid in h['ids']:
            return name
    raise SystemExit('unknown property ' + pid)

def scale(pid, tier):
    quick, thorough = SCALE.get(pid, (QUICK, THOROUGH))
    return quick if tier == 'quick' else thorough
