COST = {'C01': (150, 0), 'C02': (12, 0), 'C03': (51, 0), 'C04': (34, 0), 'C05': (95, 0), 'C06': (70, 770), 'C07': (42, 0), 'C08': (55, 0), 'C09': (180, 780), 'C10': (100, 710), 'C11': (80, 0), 'C12': (50, 113), 'C13': (90, 400), 'C14': (120, 133), 'C15': (60, 0),
        'C16': (74, 0), 'C17': (12, 0), 'C18': (122, 0), 'C19': (118, 0), 'C20': (70, 0), 'C21': (64, 0), 'C22': (35, 0), 'C23': (33, 0), 'C24': (18, 0), 'C25': (6, 0), 'C26': (36, 0), 'C29': (20, 0), 'C30': (40, 0)}
CAUGHT = {}
