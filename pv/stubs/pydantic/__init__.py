"""Names of pydantic that the library imports inside functions (the verifier's interpreter has no pydantic)."""


class ValidatorFunctionWrapHandler:
    pass


class GetCoreSchemaHandler:
    pass
