"""Tokens: values, conversion between kinds, joining."""

from yargy.token import (
    Token, MorphToken, TagToken, MorphTagToken,
    join_tokens, join_normalized_tokens, join_inflected_tokens,
    get_tokens_span, is_token, is_morph_token, is_tag_token,
    inflect_token, normalize_token
)
from yargy.span import Span


class plain_token_normalized:
    props = 'C28'

    def code(token: '=Token'):
        return token.normalized

    def spec(token):
        return token.value.lower()


class tag_token_normalized:
    props = 'C28 C32'

    def code(token: '=TagToken'):
        return token.normalized

    def spec(token):
        return token.value.lower()


class morph_token_normalized:
    props = 'C28'

    def code(token: '=MorphToken'):
        return token.normalized

    def spec(token):
        return token.forms[0].normalized


class morph_tag_token_normalized:
    props = 'C28 C32'

    def code(token: '=MorphTagToken'):
        return token.normalized

    def spec(token):
        return token.forms[0].normalized


class token_morphed:
    props = 'C18 C28'

    def code(token: '=Token', forms):
        x = token.morphed(forms)
        return x.value, x.span, x.type, x.forms, type(x)

    def spec(token, forms):
        return token.value, token.span, token.type, forms, MorphToken


class token_tagged:
    props = 'C32'

    def code(token: '=Token', tag):
        x = token.tagged(tag)
        return x.value, x.span, x.type, x.tag, type(x)

    def spec(token, tag):
        return token.value, token.span, token.type, tag, TagToken


class morph_token_tagged:
    props = 'C32'

    def code(token: '=MorphToken', tag):
        x = token.tagged(tag)
        return x.value, x.span, x.type, x.tag, x.forms, type(x)

    def spec(token, tag):
        return (token.value, token.span, token.type, tag, token.forms,
                MorphTagToken)


class morph_token_constrained:
    props = 'C18'

    def code(token: '=MorphToken', forms):
        x = token.constrained(forms)
        return x.value, x.span, x.type, x.forms, type(x)

    def spec(token, forms):
        return token.value, token.span, token.type, forms, MorphToken


class morph_tag_token_constrained:
    props = 'C18 C32'

    def code(token: '=MorphTagToken', forms):
        x = token.constrained(forms)
        return x.value, x.span, x.type, x.forms, x.tag, type(x)

    def spec(token, forms):
        return (token.value, token.span, token.type, forms, token.tag,
                MorphTagToken)


class join_spacing:
    props = 'C27'

    def code(tokens: '[Token]'):
        return join_tokens(tokens)

    def spec(tokens):
        parts = []
        previous = None
        for token in tokens:
            if previous and token.span.start > previous.span.stop:
                parts.append(' ')
            parts.append(token.value)
            previous = token
        return ''.join(parts)


class span_of_tokens:
    props = 'C26 C09'

    def code(tokens: '[Token]'):
        x = get_tokens_span(tokens)
        return x.start, x.stop

    def spec(tokens):
        return tokens[0].span.start, tokens[-1].span.stop


class kind_tests:
    props = 'C28 C32'

    def code(item):
        return is_token(item), is_morph_token(item), is_tag_token(item)

    def spec(item):
        return (isinstance(item, Token), isinstance(item, MorphToken),
                isinstance(item, TagToken))
