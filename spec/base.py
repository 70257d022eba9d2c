class Case:
    pass
