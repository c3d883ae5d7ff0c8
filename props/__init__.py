MODULES = {'C01': 'pool', 'C02': 'pool', 'C03': 'pool', 'C04': 'pool', 'C05': 'pool', 'C06': 'pool', 'C22': 'abort', 'C21': 'timer', 'C20': 'pimpl', 'C19': 'types', 'C23': 'arr', 'C18': 'help', 'C11': 'mem', 'C12': 'mem', 'C13': 'mem', 'C14': 'bits', 'C15': 'bits', 'C16': 'bits', 'C17': 'div', 'C07': 'res', 'C08': 'res', 'C09': 'res', 'C10': 'res'}
