"""Build the dump driver once (each check rebuilds what is missing)."""
from mk import build

if __name__ == "__main__":
    print(build.driver())
