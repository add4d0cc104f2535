# Least number of obligations each check has to find on any tree; fewer means an anchor got lost silently.
MINIMA = {'C01': 60, 'C02': 12, 'C03': 25, 'C04': 20, 'C05': 50, 'C06': 12, 'C07': 50, 'C08': 30, 'C09': 1000, 'C10': 500, 'C11': 200, 'C12': 4500, 'C14': 130, 'C15': 800, 'C16': 10000, 'C17': 350, 'C18': 450, 'C19': 700, 'C20': 400, 'C21': 1000, 'C23': 280, 'C24': 400, 'C25': 10, 'C26': 700, 'C27': 30, 'C28': 900, 'C29': 30, 'C30': 60, 'C32': 15000, 'C33': 330, 'C34': 100, 'C31': 150, 'C22': 5000, 'C36': 20, 'C35': 40}
