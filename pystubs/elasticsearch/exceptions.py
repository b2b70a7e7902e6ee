class ApiError(Exception): pass
class NotFoundError(ApiError): pass
