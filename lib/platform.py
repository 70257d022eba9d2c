"""Model of the platform the code runs on: any."""


def system():
    return text('platform')
