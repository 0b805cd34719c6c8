"""Reference definition of what running or importing a script does (not executed)."""


def main():
    raise NotImplementedError()


def script(name):
    if name == "__main__":
        main()
