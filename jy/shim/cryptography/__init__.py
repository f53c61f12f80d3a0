'''
Stand-in for the cryptography package, which is not installed here and has no
Jython build: the part of its API that privcount uses, implemented with the Java
cryptography architecture and Bouncy Castle.
'''
__version__ = '2.0'
