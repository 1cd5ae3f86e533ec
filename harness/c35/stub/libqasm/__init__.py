# stand-in for the SWIG module: hands out what the harness put into `result`, records what it was asked
result, asked = None, []
class V3xAnalyzer:
    def __init__(self, *args): asked.append(('init', args))
    @staticmethod
    def parse_file(*args): asked.append(('parse_file', args)); return result
    @staticmethod
    def parse_string(*args): asked.append(('parse_string', args)); return result
    @staticmethod
    def parse_file_to_json(*args): asked.append(('parse_file_to_json', args)); return result
    @staticmethod
    def parse_string_to_json(*args): asked.append(('parse_string_to_json', args)); return result
    def analyze_file(self, *args): asked.append(('analyze_file', args)); return result
    def analyze_string(self, *args): asked.append(('analyze_string', args)); return result
    def analyze_file_to_json(self, *args): asked.append(('analyze_file_to_json', args)); return result
    def analyze_string_to_json(self, *args): asked.append(('analyze_string_to_json', args)); return result
